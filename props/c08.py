from .common import RULE_MESH, parse_suites, roundtrip_suites

RULE = RULE_MESH


def suites():
    return roundtrip_suites("surf", shards=1) + parse_suites(["surf"])
