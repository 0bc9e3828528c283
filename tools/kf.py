import subprocess
M="ee1ca37 C07;5d4b790 C07;eb369ae C07;1e597e9 C17;0b450f5 C22;590a1d3 C04;bf0003b C06;b45aea4 C06;bc5f767 C11;f8cd773 C06;cc93250 C11;fcac8c3 C17;b9a35b2 C09;255790d C04;2f78081 C09;4d51d22 C09;12d023e C09;c734184 C09;933d61b C19;74874e9 C17;59beac9 C17;86f7bed C11;a8e55b9 C11;797b73c C11;e7b12a5 C15;0cf7a34 C01;b1bdd06 C05;7127226 C10;7d890be C01;fe3796c C01;def0d3b C10;aab8c47 C09;cc4e35c C20;93cce4a C12;84749e2 C12;10c2727 C01;bec1066 C03;c0bb8df C16;4946775 C06;8611767 C06;4784558 C06;de63198 C08;d69da25 C08;f32246e C08;a5b5ddf C08;38441fe C08;830928d C15;8f2470d C08;6360e77 C19;165424c C19;454405d C19;cfae3fe C19;1c58049 C10;df4b995 C22;e9efed3 C10"
out=["# Genuine defects found by the checks. 'known:' entries are reported as KNOWN-FINDING, 'fixed:' entries suppress nothing.",
"# Format: fixed: property=<id> <commit in /repo> <what failed> ; known: property=<id> <what fails>"]
for x in M.split(";"):
    c,p=x.split()
    s=subprocess.check_output(["git","-C","/repo","log","-1","--format=%s",c],text=True).strip().removeprefix("fix: ")
    out.append("fixed: property=%s %s (before the repair this did not hold) %s"%(p,c,s))
open("known_findings.txt","w").write("\n".join(out)+"\n")
