"""The fields of the published message types (none may get lost)."""

FIELDS = {
    'AckForceGetTaskResult': ['force_get_task_result'],
    'AckReportComputedTask': ['report_computed_task'],
    'AckSubtaskResultsVerify': ['subtask_results_verify',
        'file_transfer_token'],
    'CannotAssignTask': ['task_id', 'reason'],
    'CannotComputeTask': ['task_to_compute', 'reason'],
    'ChallengeSolution': ['solution'],
    'ClientAuthorization': ['client_public_key'],
    'Degree': ['degree'],
    'Disconnect': ['reason'],
    'FileTransferToken': ['subtask_id', 'token_expiration_deadline',
        'storage_cluster_address', 'authorized_client_public_key',
        'operation', 'files'],
    'FindNode': ['node_key_id'],
    'ForceGetTaskResult': ['report_computed_task'],
    'ForceGetTaskResultDownload': ['force_get_task_result',
        'file_transfer_token'],
    'ForceGetTaskResultFailed': ['task_to_compute'],
    'ForceGetTaskResultRejected': ['force_get_task_result', 'reason'],
    'ForceGetTaskResultUpload': ['force_get_task_result',
        'file_transfer_token'],
    'ForcePayment': ['subtask_results_accepted_list'],
    'ForcePaymentCommitted': ['payment_ts', 'task_owner_key',
        'provider_eth_account', 'amount_paid', 'recipient_type',
        'amount_pending'],
    'ForcePaymentRejected': ['force_payment', 'reason'],
    'ForceReportComputedTask': ['report_computed_task', 'result_hash'],
    'ForceReportComputedTaskResponse': ['reason', 'ack_report_computed_task',
        'reject_report_computed_task'],
    'ForceSubtaskResults': ['ack_report_computed_task'],
    'ForceSubtaskResultsRejected': ['force_subtask_results', 'reason'],
    'ForceSubtaskResultsResponse': ['subtask_results_accepted',
        'subtask_results_rejected'],
    'GetPeers': [],
    'GetResourcePeers': [],
    'GetTasks': [],
    'Gossip': ['gossip'],
    'HasResource': ['resource'],
    'Hello': ['rand_val', 'proto_id', 'node_info', 'port', 'client_ver',
        'solve_challenge', 'challenge', 'difficulty', 'metadata'],
    'LocRank': ['node_id', 'loc_rank'],
    'Peers': ['peers'],
    'Ping': [],
    'Pong': [],
    'PullAnswer': ['resource', 'has_resource'],
    'PullResource': ['resource'],
    'PushResource': ['copies', 'resource'],
    'RandVal': ['rand_val'],
    'RejectReportComputedTask': ['attached_task_to_compute', 'task_failure',
        'cannot_compute_task', 'reason'],
    'RemoveTask': ['task_id'],
    'RemoveTaskContainer': ['remove_tasks'],
    'ReportComputedTask': ['address', 'node_info', 'port', 'key_id',
        'extra_data', 'task_to_compute', 'size', 'package_hash', 'multihash',
        'secret', 'options', 'stats'],
    'ResourceHandshakeNonce': ['nonce'],
    'ResourceHandshakeStart': ['resource', 'options'],
    'ResourceHandshakeVerdict': ['accepted', 'nonce'],
    'ResourcePeers': ['resource_peers'],
    'ServiceRefused': ['task_to_compute', 'reason'],
    'SetTaskSession': ['key_id', 'node_info', 'conn_id', 'super_node_info'],
    'StartSessionResponse': ['conn_id'],
    'StopGossip': [],
    'SubtaskPayment': ['subtask_id', 'reward', 'transaction_id',
        'block_number'],
    'SubtaskPaymentRequest': ['subtask_id'],
    'SubtaskResultsAccepted': ['payment_ts', 'report_computed_task'],
    'SubtaskResultsRejected': ['report_computed_task',
        'force_get_task_result_failed', 'reason'],
    'SubtaskResultsSettled': ['origin', 'task_to_compute'],
    'SubtaskResultsVerify': ['subtask_results_rejected',
        'concent_promissory_note_sig'],
    'TaskFailure': ['task_to_compute', 'err', 'reason'],
    'TaskToCompute': ['requestor_id', 'requestor_public_key',
        'requestor_ethereum_public_key', 'provider_id', 'compute_task_def',
        'want_to_compute_task', 'package_hash', 'size', 'concent_enabled',
        'price', 'resources_options', 'ethsig', 'promissory_note_sig',
        'concent_promissory_note_sig'],
    'Tasks': ['tasks'],
    'VerdictReportComputedTask': ['force_report_computed_task',
        'ack_report_computed_task'],
    'WantToComputeTask': ['perf_index', 'cpu_usage', 'max_resource_size',
        'max_memory_size', 'price', 'num_subtasks', 'concent_enabled',
        'extra_data', 'provider_public_key', 'provider_ethereum_address',
        'task_header'],
    'WantToStartTaskSession': ['node_info', 'conn_id', 'super_node_info'],
    'WantsResource': ['resource'],
}


# slot: (class of the message in it, a list of them, may be unset)
NESTED = {
    'AckForceGetTaskResult': {
        'force_get_task_result': ('ForceGetTaskResult', False, False),
    },
    'AckReportComputedTask': {
        'report_computed_task': ('ReportComputedTask', False, False),
    },
    'AckSubtaskResultsVerify': {
        'file_transfer_token': ('FileTransferToken', False, False),
        'subtask_results_verify': ('SubtaskResultsVerify', False, False),
    },
    'CannotComputeTask': {
        'task_to_compute': ('TaskToCompute', False, False),
    },
    'ForceGetTaskResult': {
        'report_computed_task': ('ReportComputedTask', False, False),
    },
    'ForceGetTaskResultDownload': {
        'file_transfer_token': ('FileTransferToken', False, False),
        'force_get_task_result': ('ForceGetTaskResult', False, False),
    },
    'ForceGetTaskResultFailed': {
        'task_to_compute': ('TaskToCompute', False, False),
    },
    'ForceGetTaskResultRejected': {
        'force_get_task_result': ('ForceGetTaskResult', False, False),
    },
    'ForceGetTaskResultUpload': {
        'file_transfer_token': ('FileTransferToken', False, False),
        'force_get_task_result': ('ForceGetTaskResult', False, False),
    },
    'ForcePayment': {
        'subtask_results_accepted_list': ('SubtaskResultsAccepted', True, False),
    },
    'ForcePaymentRejected': {
        'force_payment': ('ForcePayment', False, False),
    },
    'ForceReportComputedTask': {
        'report_computed_task': ('ReportComputedTask', False, False),
    },
    'ForceReportComputedTaskResponse': {
        'ack_report_computed_task': ('AckReportComputedTask', False, True),
        'reject_report_computed_task': ('RejectReportComputedTask', False, True),
    },
    'ForceSubtaskResults': {
        'ack_report_computed_task': ('AckReportComputedTask', False, False),
    },
    'ForceSubtaskResultsRejected': {
        'force_subtask_results': ('ForceSubtaskResults', False, False),
    },
    'ForceSubtaskResultsResponse': {
        'subtask_results_accepted': ('SubtaskResultsAccepted', False, True),
        'subtask_results_rejected': ('SubtaskResultsRejected', False, True),
    },
    'RejectReportComputedTask': {
        'attached_task_to_compute': ('TaskToCompute', False, True),
        'cannot_compute_task': ('CannotComputeTask', False, True),
        'task_failure': ('TaskFailure', False, True),
    },
    'RemoveTaskContainer': {
        'remove_tasks': ('RemoveTask', True, False),
    },
    'ReportComputedTask': {
        'task_to_compute': ('TaskToCompute', False, False),
    },
    'ServiceRefused': {
        'task_to_compute': ('TaskToCompute', False, True),
    },
    'SubtaskResultsAccepted': {
        'report_computed_task': ('ReportComputedTask', False, False),
    },
    'SubtaskResultsRejected': {
        'force_get_task_result_failed': ('ForceGetTaskResultFailed', False, True),
        'report_computed_task': ('ReportComputedTask', False, False),
    },
    'SubtaskResultsSettled': {
        'task_to_compute': ('TaskToCompute', False, False),
    },
    'SubtaskResultsVerify': {
        'subtask_results_rejected': ('SubtaskResultsRejected', False, False),
    },
    'TaskFailure': {
        'task_to_compute': ('TaskToCompute', False, False),
    },
    'TaskToCompute': {
        'want_to_compute_task': ('WantToComputeTask', False, False),
    },
    'VerdictReportComputedTask': {
        'ack_report_computed_task': ('AckReportComputedTask', False, False),
        'force_report_computed_task': ('ForceReportComputedTask', False, False),
    },
}
