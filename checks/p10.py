from checks.xmljobs import xml_jobs

LEVEL = 'exploration'
TECHNIQUE = 'metamorphic property-based testing: one object, many documents that mean the same'
NOTE = ('A random writer produces the document of an object with comments, processing instructions, doctypes, white space, references, CDATA, attributes for simple members, '
        'members reordered, unknown elements added and members left out; each is confirmed well formed by expat, unpacked into a used object and compared with the expected element tree.')
RULE = 'layout: non-trivial = more than 3 elements and at least one rewriting applied; missing: a simple member left out with missingException set, non-trivial = more than 2 elements'
ASSUMPTIONS = ['as P08', 'no unordered containers (their order is not part of their value)', 'white space inside strings and characters is significant']


def run(ctx):
    ctx.run_jobs(xml_jobs(ctx, 'p10', ctx.n(4, 20), [('layout', ctx.n(1500, 20000), 2), ('missing', ctx.n(500, 6000), 1)], unordered=False))
