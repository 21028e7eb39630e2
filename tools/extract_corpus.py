#!/usr/bin/env python3
"""One-off: pull the SQL samples out of /repo's unit tests into corpus/seed.json.

The result is committed; no check runs this script (so an edit of the tests does not change
the simulated workload)."""
import glob, json, re, sys
def unescape(s):
    out=[];i=0
    while i<len(s):
        c=s[i]
        if c!='\\': out.append(c); i+=1; continue
        n=s[i+1]
        if n=='\n':
            i+=2
            while i<len(s) and s[i] in ' \t\n\r': i+=1
            continue
        m={'n':'\n','t':'\t','r':'\r','\\':'\\','"':'"',"'":"'",'0':'\0'}
        if n=='u':
            e=s.index('}',i); out.append(chr(int(s[i+3:e],16))); i=e+1; continue
        out.append(m[n]); i+=2
    return ''.join(out)
docs=[]
for f in sorted(glob.glob('/repo/src/parser/tests/*.rs')+['/repo/src/lexer/tests.rs']):
    t=open(f).read()
    for m in re.finditer(r'TestCase::new\(\s*',t):
        p=m.end()
        mr=re.match(r'r(#*)"',t[p:])
        if mr:
            q='"'+mr.group(1); s=p+mr.end(); e=t.index(q,s); docs.append(t[s:e]); continue
        if t[p]!='"': continue
        e=p+1
        while t[e]!='"':
            e+= 2 if t[e]=='\\' else 1
        docs.append(unescape(t[p+1:e]))
seen=set();out=[]
for d in docs:
    if d not in seen: seen.add(d); out.append(d)
json.dump(out,open(sys.argv[1],'w'),indent=0,ensure_ascii=False)
print(len(out), sum(map(len,out)), max(map(len,out)))
