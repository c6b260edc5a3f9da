#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
AI = 'abstract interpretation of the LLVM IR: '
COMMON = ('Sound for the modelled C semantics within the stated bounds: strings and blobs of any length below 2^27, tags of at most three '
          'frames, files below 2^30; trusts the clang front end, the libc model and the interpreter itself (engine/). ')
C = {
 'C01': ('memory safety of every access on every path of the readers, all input bytes symbolic',
         'Every load, store and copy reached from the readers is proved inside a live initialised object, for inputs of any length and content with at most three frames per class.'),
 'C09': ('id compared, stored or removed by every named operation', 'Every named getter, setter and deleter is analysed on any tag of up to three frames with unconstrained ids.'),
 'C10': ('shape analysis of lookups', 'Result of every lookup compared with the list for every combination of matching ids in tags of up to three frames.'),
 'C11': ('shape and content analysis of setters', 'Frame list and every byte of the new frame compared with the input, aliasing inputs included.'),
 'C12': ('shape analysis of deleters', 'Frame list after every deleter, every index value, tags of up to three frames.'),
 'C14': ('symbolic comparison of parsed fields with the input bytes at their place', 'Every field of every parsed frame compared with the bytes the layout defines, for all input bytes.'),
 'C17': ('encoding byte, terminator and size of every string built', 'Every string of every frame built by a setter or parser.'),
 'C18': ('recognition condition of every reader', 'A header/tag is returned exactly in the states whose bytes carry a supported header, with the fields found there.'),
 'C21': ('loop progress and termination of the readers', 'Every loop reached is followed to its exit or shown to make bounded progress.'),
 'C02': ('memory safety of every access of editing, writing and converting calls', 'Every access from every editing, writing and compatibility entry is proved in bounds.'),
 'C03': ('size accounting in every exit state', 'Tag and frame sizes in every exit state of readers, setters, adders, deleters and writers.'),
 'C04': ('ownership and lifetime analysis', 'Every allocation is freed exactly once or reachable from what the caller holds, in every exit state.'),
 'C05': ('typestate of streams with every open failing or succeeding', 'Every stream is checked, used only while open and closed once on every path.'),
 'C06': ('symbolic contents of the file after a write', 'Contents of the target compared with tag plus old audio for every file length and content.'),
 'C07': ('symbolic contents of the file after a delete', 'Contents of the target compared with the bytes after the tag for every file.'),
 'C08': ('what is staged and checked where a target is opened for writing', 'Every truncating or modifying operation on the target is preceded by complete, error-checked staging.'),
 'C13': ('symbolic contents of the encoded tag', 'Every byte written compared with the ID3v2 layout.'),
 'C15': ('bit-provenance analysis of size codecs', 'Each bit of a decoded or encoded size is traced to the bit it has to come from.'),
 'C16': ('string classes with inductive loop invariants', 'Result of the helpers for every terminated string, ISO or UTF-16.'),
 'C19': ('comparison of mirror and underlying tag in every exit state', 'Mirror frames, payloads and content parsers compared with the underlying tag.'),
}
CLAIMED = [f'C{i:02d}' for i in range(1, 22) if i != 20]
NA = {'C22': 'The library rewrites the target in place (fopen "w+b", then a byte copy), so the property does not hold at any crash point after the truncation and no static argument can show it; a repair needs a rename-based replacement, a change of design (see DESIGN.md).'}
ids = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'))]
checks = []
for i in ids:
    if i == 'C20':
        checks.append(dict(property=i, quick_cmd='python3 engine/check.py C20', thorough_cmd='VERIF_TIER=thorough python3 engine/check.py C20',
            technique='interprocedural effect and address-flow analysis over LLVM IR', level='other',
            level_note='Decides, for every function of the library, writes to static objects, forbidden or stateful external calls and fixed file names; trusts the libc effect table.'))
    elif i in CLAIMED:
        t, n = C[i]
        checks.append(dict(property=i, quick_cmd=f'python3 engine/check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 engine/check.py {i}',
            technique=AI + t, level='other', level_note=n + ' ' + COMMON))
na = [dict(property=i, reason=NA.get(i, 'machinery not built yet')) for i in ids if i not in CLAIMED and i != 'C20']
m = dict(version=1, setup_cmd="python3 -c 'import sys; assert sys.version_info>=(3,8)' && clang --version && opt --version", checks=checks, not_applicable=na,
         notes='Static analysis only: engine/ reads the LLVM IR of /repo\'s current source on every run. No hooks in /repo.')
json.dump(m, open(os.path.join(os.path.dirname(__file__), '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
