from driver import Job

LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: views of generated rank and extents against plain index arithmetic'
NOTE = ('For random ranks (1 to 5) and extents (0 included) a view is built from its extents and from a vector of them, and every element is reached by indexing, by const indexing, by iteration and by const iteration '
        'over every level of sub-array views; each must be the element at the row order offset. Copies, assignments, random iterator moves and writes likewise. Under AddressSanitizer, with the data in an allocation of its exact size.')
RULE = 'view of rank above 1 with more than 3 elements; distinct by the choices drawn'
ASSUMPTIONS = ['the extents are given fastest varying first, as the class takes them', 'indices within the extents', 'iterators of views of no elements are not walked: they all coincide']


def run(ctx):
    n = ctx.n(20000, 1000000)
    ctx.run_jobs([Job('multi11', 'lib/h_multi.cc', std='c++11', cases=[('views', n, 1)]),
                  Job('multi17', 'lib/h_multi.cc', std='c++17', cases=[('views', n, 1)]),
                  Job('multi20', 'lib/h_multi.cc', std='c++20', cases=[('views', n, 1)])])
