import subprocess,re
M={"476c177":"C05","cd37409":"C03","05a7708":"C05","e439536":"C24","36d17b5":"C24","ed701e6":"C25","2d5b1bb":"C25","f327a6b":"C16","b68c616":"C03","d2d2148":"C04","af8c4ab":"C04","9da1480":"C04","ed60763":"C04","3fdd169":"C04","db4eb46":"C06","8e5e04e":"C04","29ce059":"C04","4f94a57":"C04","1becc55":"C05","1796c50":"C23","821e2fb":"C23"}
import sys
for a in sys.argv[1:]:
    k,v=a.split('=');M[k]=v
cur=open('/verif/known_findings.txt').read()
for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s','--reverse'],text=True).splitlines():
    h,s=l.split(' ',1)
    if s.startswith('fix:') and h[:7] not in cur and h in M:
        cur+='fixed: property=%s %s %s\n'%(M[h],h,s[5:])
open('/verif/known_findings.txt','w').write(cur)
