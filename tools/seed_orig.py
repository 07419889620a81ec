#!/usr/bin/env python3
# which lines a planted bug removes, and whether they are the original repository's
import subprocess,re,sys,glob,os
base=subprocess.check_output(["git","-C","/repo","rev-list","--max-parents=0","HEAD"],text=True).strip()
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f=None;o=m=ins=0;n=0
    for l in open(p):
        if l.startswith("--- a/"): f=l[6:].strip(); bl=subprocess.check_output(["git","-C","/repo","blame","-s","-l","HEAD","--",f],text=True).splitlines()
        elif l.startswith("@@"): n=int(re.match(r"@@ -(\d+)",l).group(1))-1; 
        elif l.startswith("-") and not l.startswith("---"):
            if base in bl[n] or bl[n].startswith("^"): o+=1
            else: m+=1
            n+=1
        elif l.startswith("+") and not l.startswith("+++"): ins+=1
        elif l.startswith(" "): n+=1
    print(os.path.basename(os.path.dirname(p)),"original",o,"mine",m,"added",ins,"" if o else "   <-- no original line removed")
