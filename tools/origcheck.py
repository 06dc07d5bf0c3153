"""Development aid: which planted bugs touch no line of the original repository (base commit)?"""
import subprocess, glob, os, re, sys
BASE='1cb48d2'
def base(f):
    r=subprocess.run(['git','-C','/repo','show',f'{BASE}:{f}'],capture_output=True,text=True)
    return set(l.strip() for l in r.stdout.splitlines())
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f=None; hits=0; minus=0
    for l in open(p):
        l=l.rstrip('\n')
        if l.startswith('--- a/'): f=l[6:]; b=base(f)
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip():
            minus+=1
            if l[1:].strip() in b: hits+=1
    if not hits: print(os.path.basename(os.path.dirname(p)), 'minus', minus, 'original', hits)
