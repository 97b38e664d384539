import nla3d, os, gc
st = nla3d.FEStorage(); st.createNodes(3) if hasattr(st, "createNodes") else None
s = nla3d.LinearFESolver(); s.attachFEStorage(st)
a = nla3d.VtkProcessor(st, "a"); b = nla3d.VtkProcessor(st, "b")
s.addPostProcessor(a); s.addPostProcessor(b)
assert not a.thisown and not b.thisown, "the solver owns the post-processors, but Python will delete them too"
