import nla3d
e = nla3d.ElementTETRA0()
for i in range(4): e.setNodeNumber(i, i + 1)
try: e.setNodeNumber(4, 7)
except IndexError: pass
else: raise SystemExit("node 4 of a tetrahedron was accepted")
assert [e.getNodeNumber(i) for i in range(4)] == [1, 2, 3, 4]
