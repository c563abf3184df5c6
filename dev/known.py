import json,subprocess
m={"2a6f6fc":"C05","decbe58":"C03","392ebe5":"C01","617ec88":"C20","b8d5459":"C15","624873d":"C04","0027511":"C04","8e367ba":"C05","c63d5cd":"C05","f4e4702":"C06","6680a9f":"C06","e8ba55b":"C17","5d5a5f4":"C02","4dd20ed":"C02","255eb4e":"C05","555ccbe":"C16","17be692":"C08","8d50683":"C09","6bb21f2":"C09","86e6359":"C10","011280f":"C12","05bd581":"C12","cd7aec0":"C12","c65f790":"C12","f93b156":"C12","634a529":"C11","48e8f55":"C22","cc09679":"C13","2cae429":"C13","6110e86":"C14","62323aa":"C18","0845aec":"C13","bf4c5c3":"C15","63d2592":"C11","a0b5a90":"C18","2801b72":"C04","58f9d51":"C16"}
out=[]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","9c230a6..HEAD"],text=True).splitlines():
    h,s=l.split(" ",1)
    out.append({"kind":"fixed","property":m[h],"commit":h,"text":f"fixed: property={m[h]} {h} {s[5:]}"})
json.dump(out,open("/verif/known_findings.json","w"),indent=1)
