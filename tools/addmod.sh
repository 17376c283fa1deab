m=$1
grep -q "mod $m;" /verif/harness/src/lib.rs || sed -i "s/^mod h_sale;/mod h_sale;\nmod $m;/" /verif/harness/src/lib.rs
grep -q "mod $m;" /verif/replay/src/main.rs || sed -i "s@^#\[path = \"../../harness/src/svm.rs\"\]@#[path = \"../../harness/src/$m.rs\"]\nmod $m;\n#[path = \"../../harness/src/svm.rs\"]@" /verif/replay/src/main.rs
python3 - $m <<'P'
import re,sys
m=sys.argv[1]
src=open(f'/verif/harness/src/{m}.rs').read()
names=re.findall(r'extern "C" fn (h_\w+)\(\)',src)
p='/verif/harness/src/entries.rs'; s=open(p).read()
for n in names:
    if f'"{n}"' not in s: s=s.replace("];",f'    ("{n}", crate::{m}::{n}),\n];')
open(p,'w').write(s)
P
