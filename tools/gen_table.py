import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); rows.append((m['property'],d.split('/')[-2],m['needs']))
rows.sort()
miss={'tolerance-from-the-environment':'first missed; caught since one interpreter imports the package with no environment at all',
'objects-optional':'missed by some seeds; caught since every dependency is asked for after a failed import',
'buffer-per-thread-name':'first missed; caught since threads share their names',
'failed-means-absent':'first missed; caught since imports fail in the middle',
'pool-behind-results':'first missed; caught since a kept part of a result is watched',
'path-ends-normalised':'first missed; caught since paths start at vectors that are not unit',
'subclass-lost':'first missed; caught since programs have subclasses of their own',
'long-tracks-thinned':'first missed; caught since the tracks are long',
'one-fix-a-millisecond':'first missed; caught since fixes come close together',
'same-spot-as-before':'first missed; caught since batches repeat their points',
'hash-as-key':'first missed; caught since the look-alike pairs of calls',
'sum-as-fingerprint':'first missed; caught since the sly edits',
'one-block-per-core':'first missed; caught since the program may run on another machine',
'log-what-you-round':'first missed; caught since half of all settings change at once',
'packed-when-many':'first missed; caught since long batches are in the checkpoints',
'hook-for-nicer-warnings':'first missed; caught since the hooks of warnings are watched',
'lookup-by-hash':'first missed; caught since the look-alike storms',
'coin-for-parallel-paths':'first missed; caught since the worlds of special values',
'collector-off-for-tracks':'first missed; caught since all settings are odd at once in some runs',
'warned-once':'first missed; caught since all settings are odd at once in some runs',
'identity-shared':'first missed; caught since the worlds of special values',
'no-second-try-for-maps':'first missed; caught since the control session with the mapping library alone',
'window-cut-to-track':'first missed; caught since the reference for the documented filter',
'ring-of-positions':'first missed; caught since the marathons',
'sampled-fingerprint':'first missed; caught since entries of long batches are edited',
'long-tracks-in-blocks':'first missed; caught since long batches are normalised',
'times-sorted-in-place':'first missed; caught since fixes come in the order of their arrival',
'block-of-sixty-four':'first missed; caught since the long windows',
'careful-when-threaded':'first missed; caught since the crowds of threads',
'level-body-left-out':'first missed; caught since local frames have arrays of angles',
'label-forgotten':'first missed; caught since attributes of batches are replaced',
'logging-configured':'first missed; caught since the state of logging is watched',
'sets-of-names':'first missed; caught since abbreviated names are looked up',
'text-key':'first missed; caught since arrays change in a digit no printout shows',
'minus-zero-key':'first missed; caught since zeros change their sign between two calls',
'temporaries-reused':'first missed; caught since arguments are views nobody else holds',
'query-times-flattened':'first missed; caught since the worlds of odd array forms',
'ends-handed-back':'first missed; caught since interpolation is asked for at its ends',
'own-process-only':'first missed; caught since the comparison with a never-forked interpreter',
'name-as-ascii':'first missed; caught since frames have names of their own',
'whole-second-times':'first missed; caught since feeds of whole seconds are whole numbers',
'many-queries-sorted':'first missed; caught since many query times are asked for at once'}
out=['| check | planted change | needs | caught |','|---|---|---|---|']
for p,n,x in rows: out.append('| %s | %s | %s | yes%s |'%(p,n,x,', '+miss[n] if n in miss else ''))
s=open('/verif/DESIGN.md').read()
import re
t='\n'.join(out)
if '@TABLE@' in s: s=s.replace('@TABLE@','<!-- table -->\n'+t+'\n<!-- end -->')
else: s=re.sub(r'<!-- table -->.*<!-- end -->',lambda m:'<!-- table -->\n'+t+'\n<!-- end -->',s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
