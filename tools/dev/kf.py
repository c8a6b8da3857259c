import json,subprocess
P={"2022e96":"C20","25a03ca":"C20","430e23b":"C19","ccd40df":"C03","ecbb68b":"C02","b5789b3":"C01","8f7bade":"C01","dc2af8f":"C04","f6e1602":"C15","355bbd9":"C05","9502d3f":"C03","3132c2c":"C12","8fe9074":"C12","eb96dde":"C13","1496b22":"C07","af5e877":"C20","da2ea75":"C12","b8a2892":"C12","37f19b8":"C19","1635f0e":"C13","5518e50":"C19","f300dff":"C13","b2c7a0e":"C19","baf1a6f":"C19","0860567":"C19","ff39d1e":"C19","e331ccd":"C08","f0b4db8":"C08","58447a5":"C08","9f5feeb":"C08","97f5791":"C09","f386953":"C09","0c41fe0":"C10","e70d898":"C10","f5cc947":"C10","c3db767":"C10","b675ffd":"C10","ffd38ad":"C16","c76e67f":"C17","2401eab":"C17","fee8a43":"C18","c7b3eab":"C18","ecad190":"C18","bd9e4f7":"C18","473d2c7":"C14","9459249":"C22","14b6110":"C10","4504b47":"C13","14d65bd":"C12","dd2bd6a":"C09"}
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%H\t%s"],text=True).splitlines()
out=[]
for l in log:
    h,s=l.split("\t",1)
    if not s.startswith("fix:"): continue
    p=P[h[:7]]
    out.append({"property":p,"status":"fixed","match":"","what":"fixed: property=%s %s %s"%(p,h[:10],s[5:])})
json.dump({"findings":out},open("/verif/known-findings.json","w"),indent=1)
print(len(out))
