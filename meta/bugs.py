#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list below (patch.diff is made in a scratch copy of /repo's HEAD).
usage: meta/bugs.py [id ...]   No check reads any of this."""
import json, os, subprocess, sys, shutil, tempfile
R='/repo'; V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); OUT=V+'/seeded'
PRE=r'''#include "argtable3.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #x); return 1; } } while (0)
#define N(a) ((int)(sizeof(a) / sizeof((a)[0])))
'''
SH='''#!/bin/bash
# exit 0: the behaviour is as documented; nonzero: it is not
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
gcc -w -g -D_GNU_SOURCE %s -Isrc -o "$d/demo" "$here/demo.c" src/*.c -lm || exit 2
cd "$d" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo > out.txt 2> err.txt
rc=$?
tail -n 5 err.txt >&2
exit $rc
'''
SAN='-fsanitize=address,undefined -fno-sanitize-recover=all'
exec(open(V+'/meta/buglist.py').read())
def main():
    want=sys.argv[1:]
    for b in BUGS:
        if want and b['id'] not in want: continue
        t=tempfile.mkdtemp(prefix='bug')
        subprocess.check_call(f'git -C {R} archive HEAD | tar x -C {t} && cd {t} && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x',shell=True)
        for f,old,new in b['edits']:
            p=os.path.join(t,f); s=open(p,newline='').read()
            crlf='\r\n' in s
            if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
            assert s.count(old)==1,(b['id'],f,s.count(old),old)
            open(p,'w',newline='').write(s.replace(old,new))
        diff=subprocess.check_output(['git','-C',t,'diff'])
        d=os.path.join(OUT,b['id']); os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','wb').write(diff)
        open(d+'/demo.c','w').write(PRE+b['demo'])
        open(d+'/demo.sh','w').write(SH%b.get('flags','')); os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        shutil.rmtree(t)
main()
