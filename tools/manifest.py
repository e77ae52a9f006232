#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = 'deterministic simulation with fault injection: '
STORAGE = ('simulated disk (page cache, fsync, torn / lost / duplicated / reordered / rotten blocks, short reads, crashes at any step) and seeded authors and readers; ')
THREADS = ('seeded scheduler over the instructions of real threads, asynchronous exceptions at drawn points; ')
HISTORY = ('seeded histories of several clients; ')
MODEL = 'an independent reference model of eno and of the element API (no regular expressions, no caches)'
TRUST = ('Assurance: nothing found on the seeds run; no proof. Trusts CPython, the simulator and ' + MODEL + '; ')

T = {
    'C01': (STORAGE + 'every text parsed under every reporter/locale, verdict against the model, steps and CPU bounded',
            'the step bound is checked on damaged texts of up to some thousand characters and on generated repetitive texts.'),
    'C02': (STORAGE + 'error kind, place, snippet against the model and against the stored lines, three reporters', 'positions are compared with the model of selections.'),
    'C03': (STORAGE + 'complete reading of every accepted text against the model', 'reading programs are drawn, then every element is read.'),
    'C04': (STORAGE + 'the library on the intact text against the library on the damaged one (metamorphic)', 'no model of values is needed, only of line classes.'),
    'C05': (STORAGE + 'lookup at drawn and at all positions of short texts against the model', 'whole texts up to a few hundred positions, drawn positions beyond.'),
    'C06': (STORAGE + 'reader programs for the intact document run on what is left, against the model', 'chains up to five missing elements deep.'),
    'C07': (THREADS + 'each thread compared with the same program alone in a fresh process', 'up to four threads; switching points are lines or instructions of the library, C code of CPython is atomic.'),
    'C08': (THREADS + 'each reader of a shared document compared with a lone reader in a fresh process', 'up to four readers; identity of handles under concurrent first access is not claimed.'),
    'C09': (THREADS + 'every read explained by a registration in force during it', 'up to four threads, two registering.'),
    'C10': ('asynchronous exceptions and stack exhaustion at drawn points of every kind of operation, retried or abandoned; all later answers against ' + MODEL,
            'exceptions arrive between traced events (line or instruction) of the library, where CPython can deliver them.'),
    'C11': ('process histories of parses, lookups, interruptions, failures, threads; then a parse compared with the same parse in a fresh process', 'documents are compared through a complete dump by the public API.'),
    'C12': (HISTORY + 'every answer and handle identity against ' + MODEL, 'histories of up to 80 operations.'),
    'C13': (HISTORY + 'touch assertions (verdict, element, message) against ' + MODEL, 'histories of up to 80 operations.'),
    'C14': (HISTORY + 'takes by every route, some interrupted, against ' + MODEL, 'histories of up to 80 operations.'),
    'C15': (HISTORY + 'documents of copies, some operations interrupted, against ' + MODEL + ' that expands copies on every read', 'copy chains and nesting of drawn depth up to about six.'),
    'C16': (HISTORY + 'the requirement switched at several levels, against ' + MODEL, 'histories of up to 80 operations.'),
    'C17': (HISTORY + 'failing and re-entrant loaders; calls, arguments, outcome against ' + MODEL, 'loaders fail with a dozen kinds of exceptions.'),
    'C18': (HISTORY + 'failing message functions, loaders and reporters; each report against ' + MODEL + ' and against a twin in a fresh process', 'snippets are compared with the stored lines and between moments, not with a fixed layout.'),
    'C23': (HISTORY.replace('several clients', 'a long-running process') + 'some hundred documents per run, some rejected, interrupted, starved of stack or handled by a thread of their own; live objects and reachable memory compared between two moments',
            'bounded caches are tolerated: growth must persist over some thousand documents; no model is needed.'),
    'C24': (HISTORY.replace('several clients', 'one thread') + 'handlers that read, parse, validate, report, register or raise run nested in operations at drawn events, or at every event of one operation; program and handlers compared with themselves alone in a fresh process (registrations with ' + MODEL + ')',
            'handlers enter between traced events (calls, lines, returns, or instructions), which includes every point at which CPython runs signal handlers and finalizers in the code of the library.'),
    'C25': (HISTORY + 'some operations interrupted or starved; the steps of every operation counted and bounded by the size of the expanded document, repeated operations must not grow costlier',
            'documents that spell up to four thousand elements; the bound is some five times what operations take today.'),
    'C26': (HISTORY + 'the client lets go of handles and documents and the garbage collector is run at drawn events between and inside operations',
            'the collector runs where the plan says and nowhere else.'),
    'C27': (HISTORY.replace('several clients', 'one thread') + 'a second thread forks the process at drawn events inside operations, or at every event of one operation; what the child does with inherited documents, documents of its own and registrations is compared with the same alone in a fresh process (registrations with ' + MODEL + '), within bounded steps; the parent goes on and is compared too',
            'forks happen between traced events (calls, lines, returns, or instructions) of the library.'),
}
NA = {
    'C19': 'a pure function of an undamaged input: no schedule, clock, fault or history takes part in it, so there is nothing to simulate (what survives faults is C01-C03)',
    'C20': 'a static comparison of constant tables: nothing executes, no schedule or fault takes part',
    'C21': 'a pure function of the input text; no schedule, clock, fault or history takes part',
    'C22': 'differential testing of programs in several languages (Ruby and PHP are not installed); no schedule, clock, fault or history takes part',
}
checks = [{'property': p, 'quick_cmd': 'python3 run.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p, 'evidence_file': 'evidence/%s.json' % p,
           'technique': DST + how, 'level': 'exploration', 'level_note': TRUST + note} for p, (how, note) in T.items()]
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()],
     'notes': 'No hooks in /repo: every seam is an argument enolib takes or a facility of CPython (settrace, monitoring, recursion limit).'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
