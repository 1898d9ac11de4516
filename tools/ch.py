#!/usr/bin/env python3
"""ch.py 'message' FILE REGEX : commits to /repo only the hunks of FILE's diff matching REGEX"""
import subprocess,sys,re
msg,f,rx=sys.argv[1:4]
d=subprocess.run(["git","-C","/repo","diff","-U1",f],capture_output=True,text=True).stdout
i=d.index("@@"); head=d[:i]; hs=re.split(r"(?m)^(?=@@ )",d[i:]); hs=[h for h in hs if h]
sel=[h for h in hs if re.search(rx,h)]
print(len(sel),"of",len(hs),"hunks")
subprocess.run(["git","-C","/repo","apply","--cached","--recount","-"],input=head+"".join(sel),text=True,check=True)
subprocess.run(["git","-C","/repo","commit","-qm",msg],check=True)
print(subprocess.run(["git","-C","/repo","log","--oneline","-1"],capture_output=True,text=True).stdout)
