# small syntactic mutants of every source file except the generated automata
import re, glob, os
ORDER=['C17','C07','C06','C12','C18','C11','C16','C05','C04','C15','C13','C14','C19','C03','C10','C08','C09','C25','C23','C24','C21','C20']
M=[]
SUB=[(r'==','!='),(r'!=','=='),(r'(?<![-=<])<=(?!=)','<'),(r'(?<= )<(?= )','<='),(r'(?<= )>(?= )','>='),(r'>=','>'),(r'&&','||'),(r'\|\|(?= )','&&'),
 (r'\+ 1\b',''),(r'\+ 1\b','+ 2'),(r'- 1\b',''),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\bis_ok\(\)','is_err()'),(r'\bis_some\(\)','is_none()'),(r'\bOk\((?=range)','Err('),
 (r'\b0\b','1'),(r'\b1\b','0'),(r'\b2\b','3'),(r'\.\.(?=\])','..0+'),(r"b'-'","b'_'"),(r'!(?=[a-z])',''),(r'Ordering::Greater','Ordering::Less'),(r'Ordering::Less','Ordering::Greater'),
 (r'0x20','0x10'),(r'\bNone\b(?=,?$)','panic!()'),(r'\+= 1','+= 2'),(r'-= 1','-= 2'),(r'\.max\(','.min('),(r'is_ascii_alphanumeric','is_ascii_alphabetic'),(r'b\'x\' \| b\'X\'',"b'x'"),
 (r'self\.offset < self\.end','true'),(r'Some\(item\)','None')]
def files():
    for f in sorted(glob.glob('/repo/src/**/*.rs',recursive=True)):
        if f.endswith('grammar.rs'): continue
        yield f
n=0
for f in files():
    s=open(f).read()
    cut=s.find('#[cfg(test)]'); body=s if cut<0 else s[:cut]
    rel=f[len('/repo/'):]
    lines=body.split('\n')
    for ln,l in enumerate(lines):
        t=l.strip()
        if t.startswith('//') or t.startswith('#') or t.startswith('use ') or not t: continue
        for pat,rep in SUB:
            for m in re.finditer(pat,l):
                if m.start()>0 and '//' in l[:m.start()]: continue
                new=l[:m.start()]+rep+l[m.end():]
                if new==l: continue
                # identify the line by its index among equal lines
                idx=lines[:ln].count(l)
                M.append((f"a{n:03d}_{os.path.basename(f)[:-3]}_{ln+1}",ORDER,[(rel,('\n'+l+'\n',None),'\n'+new+'\n',ln)]))
                n+=1
# statements deleted
    for ln,l in enumerate(lines):
        t=l.strip()
        if re.match(r'^(self\.\w+|offset|end|i|starting) (=|\+=|-=) .*;$',t):
            M.append((f"d{n:03d}_{os.path.basename(f)[:-3]}_{ln+1}",ORDER,[(rel,('\n'+l+'\n',None),'\n',ln)])); n+=1
if __name__=='__main__':
    for m in M: print(m[0],repr(m[2][0][2].strip()))
    print(len(M))
