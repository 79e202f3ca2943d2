"""What is checked: one entry per property (text for properties.jsonl, and the symbolic runs that decide it)."""

COMMON_ASSUMPTIONS = [
    'clang 18 -O1 bitcode of the C++ sources represents the shipped code (sampled paths are replayed natively from the same bitcode, counterexamples from a separate sanitized build)',
    'libc, libstdc++ streams, allocation and threads behave as the runtime model in /verif/rt; allocation does not fail',
    'sequentially consistent memory; thread switches at synchronisation, file and channel calls',
]

PROPS = {}


def prop(pid, **k):
    PROPS[pid] = k


def run(harness, entry='harness', **k):
    d = dict(harness=harness, entry=entry)
    d.update(k)
    return d


import importlib
for m in ('props_journal', 'props_sharing', 'props_client', 'props_db', 'props_files', 'props_net', 'props_text'):
    importlib.import_module(m).define(prop, run)
