import os
from driver import Job, VERIF

LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: generated pointer structures compared by graph isomorphism after a round trip'
NOTE = ('Random graphs, trees, DAGs and long chains through pragma graphnode/treenode types (namespaced ones too), ptr_flag GRAPH/TREE and ref, with links in '
        'scalars, arrays, vectors and maps, and recursion limits from 0 (none), 1, 2 up. A bijection is built by simultaneous traversal; a registry of '
        'constructed nodes shows that each is owned and destroyed once, with alloced kept, copied, cleared or erased one by one. Abandoned traversals precede good ones.')
RULE = ('graph/tree: non-trivial = more than 3 nodes reached; longchain: 500-3500 nodes; object: pointers of several kinds in one object, non-trivial = more than 3 nodes created; '
        'abandoned: a traversal left by an exception and then a good one')
ASSUMPTIONS = ['one node type per structure: each pointer packed outside a traversal of its type starts a structure of its own', 'single thread']


def job(std, cases):
    src = {'gtypes.h': open(os.path.join(VERIF, 'lib', 'gtypes.h')).read()}
    return Job('graph' + std[-2:], 'lib/h_graph.cc', src, [('gtypes.cd', ['-nodef', '-onbase', '-typeName', '-i', 'gtypes.h', 'pack', 'unpack'])], std=std, cases=cases)


def run(ctx):
    n = ctx.n(6000, 200000)
    cs = [('graph', n, 2), ('tree', n, 2), ('longchain', ctx.n(24, 800), 2), ('object', n // 2, 1), ('abandoned', n // 2, 1)]
    ctx.run_jobs([job('c++98', cs), job('c++17', cs)])
