"""(developer aid) regenerate the 'fixed:' lines of known_findings.txt from /repo's fix commits"""
import subprocess,re
M={ 'serializeSubstring':'P01','range of a structure/union array past':'P01','setLength of a structure/union':'P13','remove from a structure/union':'P13','partial serialization of a fixed':'P01','direct deserialization':'P01','absolute ByteBuffer':'P07','differing only in a string or array bound':'P08','non-empty with an empty variant':'P11','element type that is missing':'P09','FieldBuilder and appendFields':'P09','cloned fields':'P11','invalid selector':'P05','declared bounds':'P05','never set could not be cloned':'P11','status decoded':'P05','bit set whose decoding':'P05'}
try: exec(open('/verif/bin/fixedmap.txt').read())
except FileNotFoundError: pass
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    pid=[v for k,v in M.items() if k in s]
    if len(pid)!=1: print('UNMAPPED',l,pid); continue
    out.append(f'fixed: property={pid[0]} {h} {s[5:]}')
p='/verif/known_findings.txt'
keep=[l for l in open(p).read().splitlines() if not l.startswith('fixed:')]
keep=[l for l in keep if l.strip()]
open(p,'w').write('\n'.join(keep+out)+'\n')
