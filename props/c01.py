from .common import RULE_MESH, parse_suites, roundtrip_suites

RULE = RULE_MESH


def suites():
    return roundtrip_suites("vtk") + parse_suites(["vtk"])
