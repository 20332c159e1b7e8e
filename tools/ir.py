import sys; sys.path.insert(0,'/verif/vc')
import build,re
t=build.compile_tu(__import__('os').environ['TU'],tuple(sys.argv[1:]))
open('/tmp/tu.ll','w').write(t)
