L="ff_lib";R="ff_random_states";G="ff_graph_theory";D="ff_distance_measures";U="ff_utils";C="ff_combinatorics";I="__init__"
S=[]
def s(id,prop,edits,needs,breaks,demo,**k):
    S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))

PRE='''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
def shown(rho, **kw):
    plt.close("all")
    ff.analyze_pdf(rho, **kw)
    ax = plt.gca()
    cs = {}
    for c in ax.containers:
        cs[c.get_label()] = c[0].get_ydata()
    for l in ax.lines:
        if not l.get_label().startswith("_"):
            cs[l.get_label()] = l.get_ydata()
    return cs, ax.get_title(), ax.get_yscale()
'''
s("pdf-line-ascending","C38",[(U,'''        plt.plot(
            eigenvals,
            color="black",
''','''        plt.plot(
            eigenvals if len(eigenvals) < 4 else np.sort(eigenvals),
            color="black",
''')],"four or more levels drawn as lines","the spectrum is drawn in ascending order",PRE+'''
cs, _, _ = shown(np.diag([.1, .2, .3, .4]), stem=False)
assert np.allclose(cs["eigenvalues"], [.4, .3, .2, .1])
''')
s("pdf-empty-name","C38",[(U,'''    if name is not None:
        title += f" of {name}"
''','''    if name:
        title += f" of {name}"
''')],"a name that is false, such as 0","the name 0 is left out of the title",PRE+'''
assert shown(np.array([.3, .7]), name=0)[1] == "Population analysis of 0"
''')
s("pdf-pop-sorted","C38",[(U,'''    eigenvals = np.sort(eigenvals)[::-1]

''','''    order = np.argsort(eigenvals)[::-1]
    eigenvals = eigenvals[order]
    if len(pdf) == 3:
        pdf = pdf[order]

''')],"a qutrit","populations are permuted along with the eigenvalues",PRE+'''
cs, _, _ = shown(np.diag([.5, .2, .3]))
assert np.allclose(cs["diag(\u03c1)"], [.5, .2, .3])
''')
s("pdf-svd","C38",[(U,'''    eigenvals = clean(eigenvals)

''','''    eigenvals = clean(eigenvals, 1e-2)

''')],"an eigenvalue below one percent","small eigenvalues vanish",PRE+'''
cs, _, _ = shown(np.diag([.996, .004]))
assert np.allclose(cs["eigenvalues"], [.996, .004])
''')
s("pdf-scale-line","C38",[(U,'''    plt.yscale("log")
''','''    plt.yscale("log" if stem or name else "linear")
''')],"lines without a name","the vertical scale is linear",PRE+'''
assert shown(np.array([.3, .7]), stem=False)[2] == "log"
''')
s("pdf-diag-abs","C38",[(U,'''    rho = cast_to_density_matrix(rho)

    # Extract''','''    rho = cast_to_density_matrix(rho / max(1, np.linalg.norm(rho, 2 if rho.ndim == 1 else None)))

    # Extract''')],"an unnormalised vector","a vector that is not a state is silently rescaled and drawn",PRE+'''
try:
    ff.analyze_pdf(np.array([2.0, 1.0]))
except ValueError:
    pass
else:
    raise SystemExit(1)
''')
