import subprocess
M='''3b48ac5 C13
7489a90 C22
e5c0f97 C22
82d842b C20
c2693e0 C27
bc36b01 C24
9130b0e C24
cf4a853 C24
72d4109 C24
105479c C13
54664af C23
4ad04bd C23
c576f41 C23
d4840e1 C24
f84ffc7 C20
b0fc346 C13
01fa3d3 C02
ff0864f C20
19c3f45 C19
3b98fcd C18
72b4ff3 C16
f3711c4 C24
b235507 C08
6fe00dd C23
43d65eb C15
8c51b9f C15
1f68c6f C08
f32c125 C05
7b7a1cb C04
fc955b5 C11
698f1bb C12
951748e C11
cfecf1d C12
e28c2c9 C24
2141f3d C24
89ec451 C10
94bcece C06
fa9e9f0 C17
1006c6f C07
ef9d2b0 C07
8edcb4c C07
c774ed1 C07
848b1c7 C07
4fe1938 C17
15505e1 C10
72421fb C10
48a7a5a C10
b8bc445 C23
bc00da6 C17
bc3d1c0 C19
ac1488b C27
9af65b7 C26
44ac958 C26
4e8f2ab C26
b222bff C26
450b411 C26
9b7ddf9 C07
57e96a3 C27
64933b5 C27
60f36f7 C18
3576eb2 C27
5d2837e C06
026a6a0 C07
783147c C09
609a68a C10
6450834 C12
6afc461 C16
3d99571 C18
f94df4c C14
d5ace87 C24
e8ea977 C15
4b5dd84 C15
b899593 C16
d0896bf C16
92d0fcb C18
b3b5fb4 C14
d5cd5a4 C14
6a1a2a1 C15
cd948ce C28
406e151 C24
c27be27 C24
fa685ab C29
cf64be2 C29
ed376d8 C29
72cef82 C29
35a11fd C29
9a5cc36 C23
c4a3644 C30
9c115d2 C30
593778e C30
c633c22 C30
fe1c14e C30
79abf0d C30
2c2a335 C27
684332e C01
fc2fc65 C31
0cd53f3 C30
b974a2e C30
befd956 C30
a6d855b C06'''
d=dict(l.split() for l in M.split('\n'))
out=['# genuine defects of the pinned tree. "fixed:" entries suppress nothing; "finding:" entries (none at present) have the form',
 '# finding: property=<id> ; scenario=<scenario> ; match=<text in the violation> | <description>']
for l in subprocess.check_output(['git','-C','/repo','log','--oneline','--reverse'],text=True).split('\n'):
    if 'fix: ' in l:
        h=l.split()[0]; 
        out.append(f'fixed: property={d.get(h, "C23")} {h} {l.split("fix: ",1)[1]}')
open('/verif/KNOWN_FINDINGS','w').write('\n'.join(out)+'\n')
