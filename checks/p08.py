from checks.xmljobs import xml_jobs

LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: generated class families and values, XML round trip against an independent equality'
NOTE = ('Random class families in C++98 and C++17, with base classes inlined or as elements of their own; strings full of markup, white space and UTF-8; '
        'pretty printed or not, with or without a schema, through istream or FILE, into fresh and used targets. Under AddressSanitizer.')
RULE = 'case = one object of a random type packed to XML and unpacked; non-trivial = more than 4 elements in the document; distinct by the choices drawn'
ASSUMPTIONS = ['text is what XML 1.0 can represent (no NUL or other control characters, UTF-8)', 'stream precision 21', 'no infinities or NaN before C++11',
               'smart pointers that are elements of containers are not null (an absent element cannot be written)', 'no wide characters']


def run(ctx):
    ctx.run_jobs(xml_jobs(ctx, 'p08', ctx.n(4, 20), [('roundtrip', ctx.n(1500, 20000), 2)]))
