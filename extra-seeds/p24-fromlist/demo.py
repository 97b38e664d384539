import nla3d
m = nla3d.dMat.from_list([[1, 2, 3], [4, 5, 6]]); assert m.to_list() == [[1, 2, 3], [4, 5, 6]]
try: m = nla3d.dMat.from_list([[1, 2, 3], [4, 5]])
except Exception: pass
else: raise SystemExit("a list with a short row was accepted: " + str(m))
