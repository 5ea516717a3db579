"""Prints the harnesses by property (they are listed without running)."""
import json
import sys

from . import worker
from .api import JOBS, jobs_for


def main():
    tier = sys.argv[1]
    worker.load()
    print(json.dumps({
        p: [{'id': j.id, 'bounds': j.bounds, 'weight': j.weight}
            for j in jobs_for(p, tier)] for p in JOBS}))


if __name__ == '__main__':
    from sx import listing
    listing.main()
