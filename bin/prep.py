"""Turn selected std functions into declarations, so that the optimiser keeps
calls to them and the engine sees them: panics (path ends), format! (empty
string), BuildHasher::hash_one (constant; hash tables stay correct for any
hash function)."""
import re, sys
src, dst, entries = sys.argv[1:4]
CUT = re.compile(r'4core9panicking|5alloc5alloc18handle_alloc_error|5alloc3fmt6format12format_inner|11BuildHasher8hash_one|9hashbrown3map9make_hash(?!er)|19hashmap_random_keys')
out = []
skip = False
names = []
NAME = re.compile(r'@("[^"]*"|[\w.$-]+)\(')
for l in open(src):
    if skip:
        if l.startswith('}'):
            skip = False
        continue
    if l.startswith('define '):
        n = NAME.search(l).group(1)
        if n.startswith('h_'):
            names.append(n)
        if CUT.search(n):
            d = l.rstrip()
            assert d.endswith('{')
            d = d[:-1]
            d = re.sub(r'^define ', 'declare ', d)
            d = re.sub(r'\b(internal|private|weak_odr|linkonce_odr|available_externally|weak|hidden|dso_local|local_unnamed_addr|unnamed_addr)\b ?', '', d)
            d = re.sub(r' ?!\w+ !\d+', '', d)
            d = re.sub(r' comdat(\([^)]*\))?', '', d)
            d = re.sub(r' personality ptr @\w+', '', d)
            out.append(d + '\n')
            skip = True
            continue
    out.append(l)
open(dst, 'w').writelines(out)
open(entries, 'w').write('\n'.join(names) + '\n')
