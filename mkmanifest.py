#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl
import json
tech={
'C01':'property-based testing: metamorphic (same schema, other notation) with shrinking',
'C08':'enumeration of all type pairs up to a depth plus random ones, against a set-of-values reference',
'C09':'property-based testing: generated schema pairs and operations, differential against a GraphQL operation validator',
'C10':'property-based testing: metamorphic (split over files)',
'C11':'property-based testing: metamorphic (independent edits compose)',
'C12':'property-based testing: positions and messages against the span table of the generated text',
'C13':'property-based testing of the built command: stdout and exit status against the changes of the library',
'C14':'property-based testing of the built command: repeated runs, file orders, working directories',
'C15':'property-based testing of the built command with broken inputs and injected file errors',
'C16':'property-based fuzzing with mutated schema texts: no crash, no hang, and the documented results',
'C17':'property-based testing: metamorphic (swapping old and new mirrors the report)',
'C18':'property-based testing: metamorphic (a history of versions, steps against the whole)',
'L11':'property-based testing: metamorphic (repeated, reordered and concurrent runs)',
'L12':'differential fuzzing against the lexer of the parser, and enumeration of all short texts over a small alphabet',
'U02':'property-based testing: the schema of several files against each file parsed alone',
'U03':'property-based testing of the built command: spellings of the same options, and generated misuse',
'L05':'property-based testing: positions against the span table of the generated text',
'L06':'property-based testing: differential against a reference reading of inline lint comments',
'L07':'property-based testing: differential against reference rule selection',
'L08':'property-based testing of the built command: output and exit status against a reference',
'L09':'property-based fuzzing with mutated texts and raw bytes: no crash, no hang',
'L10':'property-based testing: metamorphic (comments, layout and descriptions that are no lint comments)',
'U01':'property-based testing with generated directory trees and injected file errors and descriptor limits',
}
note="Exploration: holds on every generated case of the run, none of them chosen by hand; not a proof. Cases are drawn from VERIF_SEED, failures are shrunk, confirmed in a fresh process and saved as a replay file. Trusts gqlparser v2.5.1 for reading the generated texts back (cases it reads back differently are excluded and counted)"
extra={
'C08':'. All pairs of types up to wrapping depth 3 (4 in thorough) over two names are enumerated in every place; deeper ones are random.',
'C09':'. Trusts the operation validator of gqlparser v2.5.1.',
'L05':'. Two column defects of gqlparser v2.5.1 are known findings (known_findings.txt).',
}
cs=[]
for l in open('/verif/properties.jsonl'):
    i=json.loads(l)['id']
    t=tech.get(i,'property-based testing: generated schemas against a reference '+('comparison' if i[0]=='C' else 'of the lint rules')+', with shrinking')
    cs.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough","technique":t,"level":"exploration","level_note":note+extra.get(i,'.')})
json.dump({"version":1,"setup_cmd":"./run.sh --setup","checks":cs,"not_applicable":[],"notes":"No hooks in /repo: the checks import its packages and run the command built from its working tree."},open('/verif/MANIFEST.json','w'),indent=1)
