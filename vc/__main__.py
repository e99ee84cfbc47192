import importlib
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.chdir(V)
sys.setrecursionlimit(20000)
pid = sys.argv[1]
if pid == 'setup':
    from vc import build
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(build.compile_ll, build.src(*build.all_sources())))
    print('library compiled to IR')
else:
    m = importlib.import_module('specs.' + pid)
    m.run()
