"""Sidecar contracts of the functions in /repo, by property."""
import importlib

PLAN = {
    "C01": ["direct", "orders", "mgdirect"],
    "C02": ["direct", "utils", "mgdirect"],
    "C06": ["rcd"],
    "C07": ["settings"],
    "C13": ["effects"],
    "C16": ["pvalues"],
    "C17": ["graph"],
    "C18": ["settings", "direct"],
}


def for_property(pid):
    out, seen = [], set()
    for m in PLAN.get(pid, []):
        mod = importlib.import_module("contracts." + m)
        for c in mod.CONTRACTS:
            if pid in c.props and type(c) not in seen:
                seen.add(type(c))
                out.append(c)
    return out
