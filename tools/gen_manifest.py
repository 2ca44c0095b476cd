#!/usr/bin/env python3
# Writes MANIFEST.json: the checks registered in the harness, and the properties without one
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('online oracle: verdicts of the running validator against two independent reference matchers, over generated schemas and documents', 'two reference matchers (declarative and derivative, written from the specification) have to agree before the verdict of the code is judged'),
 'C02': ('online oracle: verdicts against reference matchers over generated name classes and namespace scopes', 'as C01, with documents in which prefixes are declared, shadowed and undeclared at random'),
 'C03': ('online oracle: verdicts against reference matchers over generated string patterns and values', 'as C01, for string patterns; values on which the editions of XML Schema differ are not judged'),
 'C04': ('online oracle: verdicts against a reference implementation of the XSD datatypes and facets, at generated boundary values', 'values on which editions of XML Schema differ, and unsupported datatypes, are not judged'),
 'C05': ('metamorphic runtime monitor: serialisations of one infoset get one verdict', 'assumes that the printer preserves the infoset'),
 'C06': ('fault injection into documents, with a monitor for acceptance', 'the faults are those listed in DESIGN.md, one per document'),
 'C07': ('differential runtime monitor: models and verdicts of one schema in both syntaxes', 'assumes that both printers write the same schema'),
 'C08': ('metamorphic runtime monitor: verdicts of decomposed grammars against the flat grammar', 'assumes that the decomposition preserves the meaning (judged by the reference matchers too)'),
 'C09': ('fault injection into schemas, with a monitor for the error reported', 'the faults are those listed in DESIGN.md, one per schema'),
 'C10': ('crash, hang and diagnostic monitor over hostile schema texts, in subprocesses', 'hostile inputs are sampled; stack exhaustion by very deep nesting is a known limitation'),
 'C11': ('crash, progress and diagnostic monitor over hostile documents, in subprocesses', 'hostile inputs are sampled'),
 'C12': ('online oracle: location of the first error against the reference matcher', 'only schemas whose every pattern can be matched'),
 'C13': ('history monitor: verdicts of interleaved, repeated and concurrent-in-time validations against fresh ones', 'histories are sampled'),
 'C14': ('process monitor: exit status, output and system calls of the command line tool', 'the tool is built from its source with the dependencies of /repo'),
 'C15': ('allocation and time accounting of growing workloads', 'growth is measured at a few sizes, with generous bounds'),
 'C16': ('online oracle: rendered hints against the reference matcher', 'the wording of hints is that of the unchanged tree'),
 'C17': ('event-log monitor: recorded file accesses against those of the composition', 'accesses are recorded by an implementation of the file system interface'),
 'C18': ('fault injection into schemas, with a monitor for the location rendered', 'only faults with a location'),
 'C19': ('metamorphic runtime monitor: models of notational variants of compact schemas', 'assumes that the printer preserves the meaning'),
 'C20': ('metamorphic runtime monitor: models of notational variants of XML schemas', 'assumes that the printer preserves the meaning'),
 'C21': ('online oracle: reference matcher run on the exposed model against one run on the generated schema', 'compares meaning, not shape'),
 'C22': ('online oracle: independent recognisers of both notations judge randomly edited schema texts; the compiler must report a syntax error exactly for those they reject', 'nothing is judged where implementations commonly differ (repeated operators, unparenthesised exceptions, escapes)'),
 'C23': ('online oracle: an independent XML reader judges randomly edited document texts (well-formed or not, where not, and the infoset); the validator must agree with it, and with the reference matcher on that infoset', 'abstains on most DTD declarations'),
}
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = set(subprocess.run([root + '/harness/target/debug/rngmon', 'list'], capture_output=True, text=True).stdout.split())
m = {'version': 1, 'setup_cmd': './build.sh C14', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in have:
        m['checks'].append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough', 'technique': T[i][0], 'level': 'exploration', 'level_note': T[i][1]})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'no check yet'})
m['notes'] = 'No hooks in /repo: the checks use the public interfaces only, and the command line tool.'
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
