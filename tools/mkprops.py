#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=['golem_messages/' + f for f in files],
            state=[dict(name=a, meaning=b, where='golem_messages/' + c)
                   for a, b, c in state],
            mechanism=[dict(name=a, where='golem_messages/' + b)
                       for a, b in mech],
            observe_at=observe, hook_needed=None)))


p('C01', 'Every registered message survives the wire unchanged',
  'A message of any registered type, built with field values its type admits, serialised (signed or not, encrypted or not) and deserialised by the peer holding the matching keys, comes back as the same type with the same timestamp and signature and with every field equal in value and type (tuples arrive as lists). The deserialised message compares equal to the original.',
  ['inputs', 'programs'],
  'all registered message types x all admissible field values (nested messages and lists included) x signing/encryption modes',
  'Tests round-trip a handful of factory-made values per type; most types and most field values (falsy values, None) are never exercised.',
  ['message/base.py', 'message/p2p.py', 'message/tasks.py', 'message/concents.py', 'message/resources.py', 'serializer.py', 'shortcuts.py'],
  [('serialise / deserialise', 'message/base.py: Message.serialize, deserialize, slots, load_slots'),
   ('per-type field conversion', 'message/*.py: serialize_slot, deserialize_slot')],
  ['bytes returned by serialisation', 'fields of the deserialised message'])

p('C02', 'Frame layout and header acceptance',
  'A serialised message starts with its 2-byte big-endian type number, its 8-byte big-endian timestamp and a 1-byte encryption flag, followed by a 65-byte signature (all zeros when unsigned) and the payload. A received frame gets past header checking exactly when it is longer than header plus signature, its type number is registered and its timestamp lies strictly between 2010-01-01 and 3010-01-01; otherwise it is refused with a message or header error.',
  ['inputs'],
  'every 16-bit type number, 64-bit timestamp and flag byte; every frame length around the minimum; every outgoing message',
  'Tests use a few literal headers; boundaries of 2^16 type numbers x 2^64 timestamps and frame lengths are not sampled.',
  ['message/base.py', 'settings.py', 'register.py'],
  [('pack/unpack header', 'message/base.py: HDR_FORMAT, serialize_header, unpack_header, deserialize_header')],
  ['serialised bytes', 'raised exception type'])

p('C03', 'A verified signature binds type, timestamp, content and key',
  'When a frame of a signed message type is deserialised with an expected sender key, it is accepted only if its signature was made by that key over exactly that type number, timestamp and payload (and, for the greeting message, the protocol version); otherwise an invalid-signature error is raised. Verifying the object received from a frame written by the library later gives the same verdict, the encryption flag not being covered.',
  ['inputs', 'fault_sequences'],
  'all pairs (what was signed, what was received) differing in any of: type, timestamp, payload, version, signer, expected key, signature bytes',
  'Tests corrupt one field of one message; they cannot range over all pairs of signed and received content.',
  ['message/base.py', 'cryptography.py'],
  [('short hash', 'message/base.py: get_short_hash'), ('signature check', 'message/base.py: deserialize_with_header, verify_signature; cryptography.py: ecdsa_verify')],
  ['acceptance or exception of deserialisation and of signature verification'])

p('C04', 'Freshness window for received messages',
  'With time checking on, a message is refused as too old when its timestamp is more than 10 minutes (plus a second of rounding) in the past and as coming from the future when it is more than 5 minutes ahead (likewise), and is otherwise accepted; with time checking off the age never matters. A timestamp that is no representable time is refused with a timestamp error.',
  ['inputs', 'schedules'],
  'every local clock reading x every timestamp',
  'Tests freeze one clock value and try a few timestamps.',
  ['message/base.py', 'settings.py'],
  [('time check', 'message/base.py: verify_time, Message.deserialize(check_time)')],
  ['raised exception type'])

p('C05', 'Only peers of a compatible protocol version are greeted',
  'A greeting is accepted exactly when the sender version is a valid semantic version that is at least MAJOR.MINOR.0 of ours and below the next minor version; any other version, valid or not, is refused with a version-mismatch error. In particular a peer running our own released version is accepted.',
  ['inputs', 'configurations'],
  'every version triple, prerelease or build suffix and malformed string x several local versions',
  'Tests compare a few literal versions against one local version.',
  ['message/base.py'],
  [('version check', 'message/base.py: verify_version, Hello.deserialize_with_header')],
  ['acceptance or exception'])

p('C06', 'Encryption is used exactly when asked for and allowed',
  'The encryption flag of a frame is set, and its payload passed through the encryption function, exactly when the type may be encrypted and an encryption function is given; the signature always covers the plain payload and the greeting and disconnect messages always travel in clear; a new message is not yet marked as encrypted. The sending shortcut encrypts for the given recipient. On reception the payload is decrypted exactly when the flag is set, a library error of the decryption function is passed on and any other error becomes a decryption error.',
  ['inputs', 'programs', 'fault_sequences'],
  'all message types x presence of encryption function x flag values x behaviours of the decryption function',
  'Tests exercise two or three types and one failure of the decryption function.',
  ['message/base.py', 'shortcuts.py'],
  [('encryption handling', 'message/base.py: Message.serialize, deserialize_with_header')],
  ['frame bytes', 'calls of the encryption/decryption function', 'exception type'])

p('C07', 'Hostile frames can only cause message errors',
  'Deserialising any byte string whatever, including a well-formed frame with a validly encoded payload of wrong shape or wrong field types, either returns a message or raises an exception of the library message-error family. No other exception escapes.',
  ['inputs'],
  'every registered type x every field replaced by a value of any encodable type (up to a stated depth), malformed slot lists, truncated frames, undecodable payloads, wrong nested messages',
  'Tests feed a few malformed values to a few fields.',
  ['message/base.py', 'message/p2p.py', 'message/tasks.py', 'message/concents.py', 'serializer.py', 'validators.py', 'datastructures/__init__.py', 'datastructures/p2p.py', 'datastructures/tasks.py', 'datastructures/stats.py'],
  [('error wrapping', 'message/base.py: Message.deserialize, Message.__init__, load_slots; serializer.py: wrap_error')],
  ['exception type escaping from deserialisation'])

p('C08', 'Type numbers and message types correspond one to one',
  'Every registered message type has exactly one number and every number exactly one type, look-ups in the two directions being inverse, and the published protocol numbers never change meaning. Registering an already used number is refused and leaves the register as it was.',
  ['inputs', 'histories'],
  'every type number 0..65535 (every integer); every sequence of up to 3 registrations with arbitrary numbers',
  'Tests register two or three fixed numbers.',
  ['register.py', 'message/base.py', 'message/p2p.py', 'message/tasks.py', 'message/concents.py', 'message/resources.py'],
  [('register', 'register.py: MessageRegister')],
  ['register look-ups', 'raised exception'],
  [('_types/_reversed', 'number to class and class to number', 'register.py')])

p('C09', 'Relayed nested messages keep their header and signature',
  'A message nested in another one arrives with its original type, timestamp, signature and content, so its author signature still verifies after any number of relays and under any signer of the outer message. Serialising never replaces an existing signature: asking to sign an already signed message is refused, and serialising it without a key keeps the signature.',
  ['inputs', 'programs', 'histories'],
  'all nesting positions of all types x all inner timestamps, signers and contents x up to two relays',
  'Tests check one or two nestings with one key pair.',
  ['message/base.py', 'utils.py'],
  [('nested serialisation', 'message/base.py: serialize_message_single, deserialize_message_single, serialize')],
  ['nested message after deserialisation', 'signature verification result'])

p('C10', 'Nested slots only admit messages of the declared type and shape',
  'A slot declared to hold a message accepts only a message of that type, on both sides of the wire: a message of another type, a bare value, or a missing message where one is required is refused with a field error naming the slot. On reception so is a list where a single message is declared, a single message or an empty list where a list is declared, and a nested message whose own header says it is of a different type.',
  ['inputs', 'programs'],
  'all nested slots of all registered types x values of every kind, nested headers with every type number',
  'Tests try one wrong class per slot; nobody varies the nested header type.',
  ['message/base.py'],
  [('slot checks', 'message/base.py: serialize_message*, deserialize_message*, MessageSlotDefinition')],
  ['exception type', 'resulting slot value'])

p('C11', 'Ownership validation accepts only chains signed by the right parties',
  'Validating ownership of a task message succeeds exactly when the message and every task message nested in it is signed by one of the parties allowed for its type (provider, requestor or Concent, as named by the task assignment it carries or the Concent key supplied), and the task offer inside each assignment is signed by the requestor. Any other signer at any level is refused with an invalid-signature error.',
  ['inputs', 'programs'],
  'all task message types with all nestings x every assignment of signers (provider, requestor, Concent, stranger, missing) to every level',
  'Tests sign with the right or one wrong key at one level; combinations of signers over the levels are not covered.',
  ['message/tasks.py', 'message/concents.py'],
  [('ownership', 'message/tasks.py: validate_ownership, validate_ownership_chain, EXPECTED_OWNERS')],
  ['result or exception of ownership validation'])

p('C12', 'Role verification ties the chain to the given parties',
  'Verifying the owners of a task message against a given provider and/or requestor key succeeds only if those keys are the ones named in the task assignment of the chain, and is otherwise refused with an ownership-mismatch error; a correct role does not excuse a wrong signature. Roles that are not given are not compared.',
  ['inputs'],
  'every combination of given and actual provider/requestor keys and of signature validity',
  'Tests use one mismatching key.',
  ['message/tasks.py'],
  [('verify_owners', 'message/tasks.py: TaskMessage.verify_owners')],
  ['result or exception'])

p('C13', 'Identifiers of the task are the same all along the chain',
  'Every task message reports the task id, subtask id, provider id, requestor id and assignment of the task assignment contained in its chain, whichever of its optional nested messages is present, and reports none when there is none. Passing a message through the wire does not change them.',
  ['inputs', 'programs'],
  'all task message types x presence patterns of optional nested messages x all id values',
  'Tests read the ids of one default instance per type.',
  ['message/tasks.py', 'message/concents.py'],
  [('id delegation', 'message/tasks.py: TaskMessage._get_task_value, TASK_ID_PROVIDERS')],
  ['the id properties of the message'])

p('C14', 'Acceptance of results carries a plausible payment time',
  'A results-accepted message is valid exactly when its payment time is not later than its own timestamp and at most 15 minutes earlier; otherwise it is refused with a validation error, also when received from the wire.',
  ['inputs'],
  'every pair of payment time and message timestamp',
  'Tests try three fixed offsets.',
  ['message/tasks.py', 'settings.py'],
  [('is_valid', 'message/tasks.py: SubtaskResultsAccepted.is_valid')],
  ['result or exception'])

p('C15', 'Rejection reasons obey the Concent rules',
  'A results-rejected message is valid only with a reason, only with a failure proof that pertains to the same task and subtask when one is attached, and only with such a proof when the reason is the forced resources failure. Coming from a requestor the reason must moreover be verification-negative, or forced resources failure if the Concent is enabled for the task, or resources failure if it is not; anything else is refused with a validation error.',
  ['inputs'],
  'all reasons x Concent flag x absence/presence of proof x all pairs of ids',
  'Tests enumerate part of the table with equal ids.',
  ['message/tasks.py'],
  [('is_valid', 'message/tasks.py: SubtaskResultsRejected.is_valid, is_valid_for_requestor')],
  ['result or exception'])

p('C16', 'A Concent verdict is about a single task assignment',
  'A report-computed-task verdict is valid exactly when the assignment in its forced report and the one in its acknowledgement are equal in every field, timestamp and signature; otherwise it is refused with a validation error, also when received from the wire.',
  ['inputs'],
  'all pairs of assignments differing in any one field, timestamp, signature or nested offer',
  'Tests use two independent random assignments.',
  ['message/concents.py', 'message/base.py'],
  [('is_valid', 'message/concents.py: VerdictReportComputedTask.is_valid')],
  ['result or exception'])

p('C17', 'Task assignments prove the requestor payment key and task ids',
  'A received task assignment is accepted only if its Ethereum signature was made, over the very offer it contains, with the Ethereum key it announces, and if both its task id and subtask id were generated for its requestor id. Otherwise it is refused with an invalid-signature or field error.',
  ['inputs'],
  'every Ethereum signer/announced key pair, every signed offer vs contained offer, every node part of either id and every requestor id',
  'Tests alter one of them in one way.',
  ['message/tasks.py', 'idgenerator.py'],
  [('acceptance', 'message/tasks.py: TaskToCompute.deserialize_with_header, verify_ethsig, validate_taskid')],
  ['acceptance or exception of deserialisation'])

p('C18', 'A promissory note commits to exactly its terms',
  'A promissory note signature is valid exactly when the payer key signed a note with the same payer, payee, amount, subtask and deposit contract; a missing one is invalid. The notes of an assignment name the requestor as payer, the assignment price and subtask, and provider respectively deposit contract as payee (those of a verification request: the provider as payer, the deposit contract as payee), and verifying all notes needs every one of them to be valid.',
  ['inputs'],
  'every pair (signed terms, verified terms) differing in any term, every signer, presence pattern of the notes',
  'Tests change one or two terms to fixed values.',
  ['datastructures/promissory.py', 'message/tasks.py', 'message/concents.py', 'utils.py'],
  [('note', 'datastructures/promissory.py: PromissoryNote, PromissorySlotMixin'), ('terms', 'message/tasks.py: _get_promissory_note, _get_concent_promissory_note; message/concents.py: SubtaskResultsVerify')],
  ['verification result'])

p('C19', 'Generated identifiers carry their owner',
  'An identifier generated from a key, from its hexadecimal form or from another identifier of the same owner is a new version-1 UUID each time, whose node part is the first 48 bits of the key, so it passes the owner check for exactly the keys with those first 48 bits. The owner check answers false, and does not fail, for strings that are no UUID.',
  ['inputs'],
  'every key (first six bytes and length), every clock value and every identifier string',
  'Tests use random keys and check one generated id.',
  ['idgenerator.py', 'utils.py'],
  [('node embedding', 'idgenerator.py: generate_id, check_id_seed, seed_to_node')],
  ['returned identifiers and booleans'])

p('C20', 'Mask operations preserve and count bits',
  'Increasing or decreasing a mask by n keeps, respectively removes, existing bits and changes the number of set bits by exactly n or to the full/empty limit, whatever bits the random choice picks; negative counts are refused and leave the mask alone. All views of a mask (bytes, integer, binary text, bit set, bit count) agree, and conversions between them are inverse.',
  ['inputs', 'schedules'],
  'every mask (symbolic bit windows), every count, every possible random selection',
  'Tests run with a few masks and whatever the random generator yields.',
  ['datastructures/masking.py'],
  [('Mask', 'datastructures/masking.py: Mask.increase, decrease, to_bits, _bits_to_bytes')],
  ['mask views'])

p('C21', 'Masks select nodes and scale with the network',
  'A mask matches a node address exactly when the address digest has none of the mask bits set, so an empty mask matches everyone and a mask with fewer bits matches at least the same nodes. The mask made for a task has as many bits as the rounded-up base-2 logarithm of potential over desired workers, never fewer than none nor more than the mask length, and none if there are no potential workers.',
  ['inputs'],
  'every digest and mask window; every pair of worker counts within the bound',
  'Tests check random digests and a few worker counts.',
  ['datastructures/masking.py'],
  [('matching', 'datastructures/masking.py: Mask.matches, get_mask_for_task, generate')],
  ['result of matching; number of bits'])

p('C22', 'Restricted dictionaries only hold declared, validated entries',
  'Built or assigned to item by item, a restricted dictionary never contains an undeclared key and always contains every declared one, missing ones with their own fresh copy of the default; a failed assignment leaves it unchanged and attribute assignment is refused. Every value of a key with a validation rule passed that rule, however it got in (construction from a mapping, from pairs, from keywords, or assignment).',
  ['inputs', 'histories'],
  'every key and value kind x every construction route x sequences of assignments',
  'Tests cover single operations with fixed keys.',
  ['datastructures/__init__.py', 'datastructures/p2p.py', 'message/tasks.py', 'message/concents.py'],
  [('dicts', 'datastructures/__init__.py: SetItemDict, FrozenDict, ValidatingDict')],
  ['dictionary contents; exceptions'])

p('C23', 'Containers enforce required, known and valid fields',
  'A container is built exactly when every required field is given, no unknown field is given and every given field that is required or not None passes all its rules; otherwise a message error naming the field is raised. Missing optional fields get their default (a fresh one each time) or None, and the dictionary form of a container rebuilds an equal container.',
  ['inputs'],
  'every subset of fields missing, every extra field, every field value kind for the library containers',
  'Tests cover a few fields of one container.',
  ['datastructures/__init__.py', 'datastructures/p2p.py', 'datastructures/tasks.py', 'datastructures/stats.py'],
  [('Container', 'datastructures/__init__.py: Container.load_slots, deserialize_slot, to_dict')],
  ['constructed fields; exceptions'])

p('C24', 'A task offer signature covers every field of the offer',
  'A task header signature verifies with a key exactly when that key signed a header equal in every field other than the signature; changing any field, including owner details and mask, makes it fail with an invalid-signature error, as does a missing signature. The signature still verifies after the header travelled inside any message that carries it.',
  ['inputs'],
  'every field of the header and of the owner node x every pair of differing values x signer and key',
  'Tests change one field.',
  ['datastructures/tasks.py', 'datastructures/__init__.py', 'cryptography.py'],
  [('hash', 'datastructures/tasks.py: TaskHeader.get_hash, sign, verify')],
  ['verification result'])

p('C25', 'Field validators accept exactly their domain',
  'Each validator accepts exactly its documented domain and otherwise raises a field error naming the field: text up to a maximum length, integers that are not booleans, positive integers, ports 1 to 65534, IP addresses, booleans, semantic versions, dictionaries. An accepting validator never raises and never changes the value.',
  ['inputs'],
  'every value of every basic type, with symbolic integers and text lengths',
  'Tests try a few values per validator.',
  ['validators.py'],
  [('validators', 'validators.py')],
  ['exception or return'])

p('C26', 'Encrypted payloads open only for the recipient and unmodified',
  'Data encrypted for a public key decrypts to the same data with the matching private key (and the same extra authenticated data); with another key, or with one of the authenticated data, ephemeral key, initialisation vector, ciphertext or tag changed and everything else as sent, it raises an error and yields no data. The ephemeral key used for a recipient is replaced once the configured timeout has passed since it was made, however often it is used.',
  ['inputs', 'histories', 'schedules'],
  'every payload, key pair and tampering position; sequences of encryptions at arbitrary times to one or two recipients',
  'Tests flip a few bytes; no test lets time pass while a recipient stays in the cache.',
  ['cryptography.py', 'shortcuts.py'],
  [('ECIES', 'cryptography.py: ECIES.encrypt, decrypt, ECIESKeyManager')],
  ['returned data, exception, ephemeral key in the frame'],
  [('last_cleanup_time', 'when the ephemeral keys were last dropped', 'cryptography.py'), ('ephemeral key cache', 'recipient key to ephemeral key material', 'cryptography.py')])

p('C27', 'Time and deposit limits are computed exactly',
  'The allowed download time is one minute plus the size divided by the rate (in KB/s) rounded up to a second; the verification time is four times the Concent messaging time plus three download times plus half of the subtask time-out. Required and suggested deposits are 2x and 4x the total price for a requestor, 1x and 4x the subtask price for a provider.',
  ['inputs'],
  'every size, price, assignment timestamp and deadline within the bounds, several rates',
  'Tests check one size and one price.',
  ['helpers.py', 'constants.py'],
  [('formulas', 'helpers.py')],
  ['returned values'])

p('C28', 'File transfer tokens list well-formed files',
  'A file transfer token accepted from the wire has an operation that is upload, download or unset, and a file list (or none) whose entries have only the declared keys and a known category (results when unspecified); anything else is refused with a message error. Upload and download predicates agree with the operation and looking up a category returns the first file of that category or none.',
  ['inputs'],
  'every operation value, file lists of up to two entries with arbitrary keys, categories and values',
  'Tests use valid tokens and one invalid category.',
  ['message/concents.py'],
  [('token', 'message/concents.py: FileTransferToken')],
  ['message fields; exceptions'])

p('C29', 'Serialisation failures are always reported as such',
  'Encoding a value that cannot be encoded and decoding bytes that cannot be decoded raise a serialisation error, whatever the underlying error, and otherwise return exactly what the codec returns for the given argument.',
  ['inputs', 'fault_sequences'],
  'every exception class of the codec, every argument',
  'Tests trigger one codec error in each direction.',
  ['serializer.py'],
  [('wrapping', 'serializer.py: wrap_error')],
  ['result or exception'])

p('C30', 'Message equality means same type, time, signature and content',
  'Two messages are equal exactly when they have the same class, header type, timestamp, signature and field values (and protocol version for greetings); the encryption flag is ignored. A signed copy of an unsigned message equals it but for the signature and leaves the original unsigned, while an already signed message is returned as it is.',
  ['inputs'],
  'all pairs of messages differing in any one component',
  'Tests compare a few pairs.',
  ['message/base.py', 'utils.py'],
  [('equality', 'message/base.py: Message.__eq__, Hello.__eq__'), ('copy', 'utils.py: copy_and_sign')],
  ['comparison result; signatures'])

p('C31', 'Resource statistics survive the wire and are typed',
  'Provider statistics given as nested dictionaries are rebuilt as typed statistics whose dictionary form equals what was given with the declared defaults filled in, so a report carrying statistics round-trips. Unknown keys, or values of the wrong type at any level, are refused with a message error.',
  ['inputs'],
  'every statistics section present, empty or absent x arbitrary numbers x one wrong-typed or unknown entry',
  'Tests use one full and one empty example.',
  ['datastructures/stats.py', 'message/tasks.py', 'datastructures/__init__.py'],
  [('stats', 'datastructures/stats.py: ProviderStats')],
  ['dictionary form; exceptions'])

p('C32', 'Node descriptions: public data, equality and peers',
  'Filling in the public data of a node copies each private address or port exactly where the public one is unset and changes nothing else; a node is a super node exactly when both addresses are set and equal. Nodes are equal exactly when all their fields are, and a peer entry always holds a node, valid address and port, and serialises to a dictionary that rebuilds an equal peer.',
  ['inputs'],
  'every presence pattern of addresses and ports with arbitrary values; every peer entry value kind',
  'Tests set one field.',
  ['datastructures/p2p.py'],
  [('Node, Peer', 'datastructures/p2p.py')],
  ['fields after the call; comparison results'])

p('C33', 'Hexadecimal and UUID conversions are inverse',
  'Encoding bytes (of any length, zero included) or text as hexadecimal and decoding gives back the bytes; other types are refused with a type error. A UUID converted to 32 bytes is its 16 bytes followed by 16 zero bytes and converts back to the same UUID.',
  ['inputs'],
  'every byte string up to the bound (symbolic bytes) and every UUID',
  'Tests use a few byte strings, none empty.',
  ['utils.py'],
  [('conversions', 'utils.py: encode_hex, decode_hex, uuid_to_bytes32, bytes32_to_uuid')],
  ['returned values'])

p('C34', 'Enumerated fields only carry declared values',
  'An enumerated field (reasons, operations, origins, recipient types) received from the wire is either unset or one of the declared members, any other value being refused with a message error; each member travels as its declared value and comes back as the same member.',
  ['inputs', 'programs'],
  'all enumerated fields of all registered types x all members x arbitrary other values of every kind',
  'Tests cover one invalid value for a couple of types.',
  ['message/base.py', 'message/tasks.py', 'message/concents.py'],
  [('enum slots', 'message/base.py: serialize_slot, deserialize_slot, AbstractReasonMessage.ENUM_SLOTS')],
  ['field value; exception type'])

p('C35', 'Offers, assignments and listings have admissible, defaulted fields',
  'A received offer has a non-negative integer CPU usage if any, a positive number of subtasks (one if not stated) and a boolean Concent flag; a received assignment has integer price and size and a boolean Concent flag; violations are message errors. Announcements of peers, tasks, resource peers and gossip present an empty list when unset, peers and tasks that are not a list are refused, and a task failure always has a reason (computation error when unset).',
  ['inputs'],
  'every value kind, with symbolic integers, of each of those fields',
  'Tests try one bad value for some of the fields.',
  ['message/tasks.py', 'message/p2p.py'],
  [('admission', 'message/tasks.py: WantToComputeTask, TaskToCompute, ConcentEnabled, TaskFailure; message/p2p.py')],
  ['field values; exception type'])

p('C36', 'Key and signature primitives check what they are given',
  'A signature made with a private key verifies with the matching public key over the same data only, and every other signature, key, data or malformed signature is refused with an invalid-signature error; a public key that is not 64 bytes long is refused with an invalid-keys error. A key pair built from a private key has the matching public key, and its own signing and verification agree with those rules, refusing signatures that are not 65 bytes long.',
  ['inputs'],
  'all combinations of signing key, verification key, signed and verified data, malformed signatures and key lengths',
  'Tests use one random key pair and one corrupted signature.',
  ['cryptography.py'],
  [('ECDSA', 'cryptography.py: ecdsa_sign, ecdsa_verify, verify_pubkey, ECCx')],
  ['result or exception'])

p('C37', 'Using a message leaves no trace, and its present state is what counts',
  'Hashing, serialising, verifying, comparing or printing a message changes none of its fields, timestamp or nested messages. Whatever was done with it before, the hash, fields and frame it gives are those of a message newly made with its present type, timestamp, signature and fields, and a signature made earlier verifies exactly as long as what was signed is unchanged (again, once a change is undone).',
  ['histories', 'inputs'],
  'all message types x sequences of uses x a change of any field, the timestamp or a nested message x further uses',
  'Tests use a message once, right after making it; nobody changes a message between two uses.',
  ['message/base.py', 'message/tasks.py', 'utils.py'],
  [('state of a message', 'message/base.py: Message.serialize, slots, get_short_hash, sign_message, verify_signature')],
  ['frames, hashes and verdicts before and after'])

p('C38', 'Messages share no state with each other',
  'Messages made or received separately are independent: changing everything in one of them, its lists, containers, dictionaries and nested messages included, changes no other message, neither existing nor made or received afterwards, even of the same type, from the same frame or without any fields given. Receiving a message does not affect those received before.',
  ['histories', 'inputs'],
  'all message types x made without fields, received twice from a frame, or received one after another with any contents',
  'Tests look at one message at a time.',
  ['message/base.py', 'message/p2p.py', 'message/tasks.py', 'datastructures/__init__.py', 'datastructures/p2p.py'],
  [('defaults and deserialisation', 'message/base.py: Message.__init__, load_slots, deserialize; message/p2p.py: Peers, Tasks, ResourcePeers, Gossip')],
  ['fields of the other message'])

p('C39', 'Addresses and keys of the parties come from what they announced',
  'The Ethereum address of a public key is the checksummed address of that very key in whichever form (bytes, hexadecimal with or without prefix) the key is given, and different keys have different addresses. An assignment presents the address of the requestor Ethereum key it announces and the provider key and address of the offer it carries, made or received, also when these are changed.',
  ['inputs', 'histories'],
  'every pair of keys in every pair of forms; every assignment made, received, or received in a report',
  'Tests compare one constant key and address.',
  ['utils.py', 'message/tasks.py'],
  [('addresses', 'utils.py: pubkey_to_address; message/tasks.py: TaskToCompute.requestor_ethereum_address, provider_public_key, provider_ethereum_address')],
  ['address and key presented'])

p('C40', 'A payload sets the declared fields of its message and nothing else',
  'A received payload is read by field name: the order of fields does not matter, of a repeated field the last value counts, and a field left out leaves the field as an unset value does, where that is accepted. Further fields of any other name are ignored, and can affect neither the header, signature, version, type nor any other part of the message, even if so named.',
  ['inputs', 'programs'],
  'all message types x one further field of any name and value anywhere x any order x any field left out or repeated',
  'Tests send the fields the library itself writes.',
  ['message/base.py'],
  [('reading of fields', 'message/base.py: Message.load_slots, valid_slot, slots')],
  ['the received message'])

p('C41', 'A message holds exactly the fields it is made with',
  'A message made with field values by keyword holds exactly these values, and the header and signature given. Every other field is unset or at its default: an empty list for listings, one subtask, Concent not enabled, computation error. A field the type does not declare can neither be given nor assigned later (attribute error).',
  ['inputs', 'programs'],
  'all message types x no field, any one field with any value, or all fields x any header and signature; undeclared names',
  'Factories fill all fields with samples; nothing looks at the ones left out or misspelt.',
  ['message/base.py', 'message/tasks.py', 'message/p2p.py'],
  [('making of messages', 'message/base.py: Message.__init__, load_slots; __init__ of the subclasses; __slots__ of all classes')],
  ['the fields of the message made; exception type'])

p('C42', 'Messages and errors can always be printed',
  'Any message, complete, without fields, or with any value for a field in place of a nested message, can be printed and gives text, and so do the values in it. Library errors keep the text they are made with, and a field error presents the field and value it is about and shows both in its text.',
  ['inputs'],
  'all message types x complete, empty or with one field of any value; all error classes x any text, field and value',
  'Logging and error reporting print what peers sent; tests print one message.',
  ['message/base.py', 'exceptions.py', 'datastructures/__init__.py'],
  [('printing', 'message/base.py: Message.__repr__, Hello.__repr__; datastructures: Container.__repr__; exceptions.py: FieldError')],
  ['the text; that no exception is raised'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
