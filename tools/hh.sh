#!/bin/bash
# hh.sh NAME [tier seed secs]
cd /verif/engine && python3-vt -c "
import replay,sys,subprocess
n=sys.argv[1]; replay.build_lib(); replay.compile_driver('/verif/harness/%s.cpp'%n,'/tmp/h_'+n)
r=subprocess.run(['/tmp/h_'+n]+(sys.argv[2:] or ['quick','1','8']),env=replay.ENV,stdout=subprocess.PIPE,stderr=subprocess.PIPE)
print(r.stdout.decode(errors='replace')[-6000:]); e=r.stderr.decode(errors='replace'); print('rc',r.returncode); 
if r.returncode: print(e[-3500:])
" "$@"
