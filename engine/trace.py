import sys, re
sys.path.insert(0, '/verif')
from engine import ir, absint
class Tr(absint.Client):
    def call(self, st, ev):
        print('  %-26s %s(%s) locks=%s' % (ev.loc.split('/')[-1], ev.name, ', '.join(map(absint.show, ev.args)), [absint.show(l) for l in st.locks]))
    def store(self, st, a, v, i): print('  %-26s STORE %s := %s' % (self.fn.m.loc(i).split('/')[-1], absint.show(a), absint.show(v)))
    def ret(self, st, v, i): print('  RET', absint.show(v) if v else None, 'facts', {absint.show(k): v for k, v in st.facts.items()}, [absint.show(l) for l in st.locks])
    def unwind(self, st, i): print('  UNWIND', [absint.show(l) for l in st.locks])
if __name__ == '__main__':
    m = ir.load(sys.argv[3] if len(sys.argv) > 3 else 'default', sys.argv[2] if len(sys.argv) > 2 else 'api')
    for f in m.find(sys.argv[1]):
        print('====', f.dem, len(f.blocks)); absint.Interp(f, Tr()).run()
