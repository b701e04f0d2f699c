from checks.xmljobs import xml_jobs

LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: generated objects, differential against expat and an element tree computed independently'
NOTE = ('The document is parsed by expat, and its elements, their order and text compared with a tree emitted by the type generator. '
        'Same families as P08. Trusts expat.')
RULE = 'case = one object of a random type packed to XML and parsed by expat; non-trivial = more than 4 elements; distinct by the choices drawn'
ASSUMPTIONS = ['as P08']


def run(ctx):
    ctx.run_jobs(xml_jobs(ctx, 'p09', ctx.n(4, 20), [('wellformed', ctx.n(1500, 20000), 2)]))
