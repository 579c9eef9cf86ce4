import json,glob,os
rows={}
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); rows.setdefault(d['property'],[]).append(os.path.basename(os.path.dirname(m)))
t='''
## 3. Planted bugs

`seeded/` holds %d changes, each with a demonstration; each is caught by the check of the property it breaks (several by others too):

| check | catches |
|---|---|
'''%sum(map(len,rows.values()))
for p in sorted(rows): t+='| %s | %s |\n'%(p,', '.join(rows[p]))
t+='''
Besides these, `tools/mut/*.muts` are about 1000 small changes by hand (names beginning with `R-` keep the behaviour, the others break a
property) applied to copies of /repo to try the checks in both directions, and `tools/automut/` generates all changes of a kind (operators,
constants, statements, conditions, arguments, bounds) for a file and lists the ones which compile, pass the tests and are not reported.
What is left there was judged one by one: changes of texts of messages, of code that cannot be reached (second checks of
the same condition), and of behaviour no property speaks of.

## 4. False alarms met, and what was done

All were corrected in the analysis, none by listing them: joins that lost the relation between a loop counter and a ghost (modes), slices of arrays,
loops rewritten with other counters or in reverse, helpers returning several values, errors kept in variables until the end of a loop,
buffers reused in another form, flags tested by other masks, standard functions used instead of loops (slices, strings, bytes, bufio), constant tables.
Statements that were too strong were corrected: C05 (the buffer need not be the cache's own storage), C20, C23 (order), C29 (trailing period),
C33 (which failure is reported), C35 (a lone ModeCharDevice may be refused), C41 (closing handles that were only looked at).

Rewritings known to be reported although they keep the behaviour: a WriteAt of the cache that marks blocks through
MarkBlockRangeDirty after the copy (needs facts about all blocks of a range at once); trimming a file name by a hand-written backward loop,
or searching for bad characters with strings.IndexFunc (C29); searching the chain with slices.Contains while it grows (C33); splitting paths by repeated
strings.Cut (C31).

## 5. Defects found in dargueta/disko

46 genuine defects were repaired in /repo (commits beginning with "fix:"), each found by the check named in `known_findings.txt`, where they
are listed with what failed. One is recorded, not repaired: WrapStreamWithInferredSize ignores the errors of Seek (C41); it has no error result, so
a repair would change its signature.

## 6. Working on it

`tools/props.py` writes properties.jsonl, `tools/manifest.py` MANIFEST.json (texts in `tools/na.py`), `tools/mkseed.py` makes `seeded/` from
`tools/seedspecs`. `bin/disko-verify -list` lists the checks, `-debug` prints states.
'''
s=open('/verif/DESIGN.md').read()
i=s.find('\n## 3. Planted bugs')
if i>=0: s=s[:i]
open('/verif/DESIGN.md','w').write(s.rstrip('\n')+'\n'+t)
