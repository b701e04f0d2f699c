from checks.xmljobs import xml_jobs

LEVEL = 'exploration'
TECHNIQUE = 'structured fuzzing of the XML parser and unpacker under AddressSanitizer, and its two stream types against each other'
NOTE = ('Valid documents cut at up to 150 places, damaged in bytes and markup, given mismatched end tags or nonsensical values, and markup soup; unpacked into random types. '
        'istream and FILE must agree in verdict and contents, and a valid document must unpack after each refusal.')
RULE = 'cut: document of more than 40 bytes; damaged: more than 30; noise: more than 12; mismatch: more than 2 end tags; oddvalues: more than 3 elements'
ASSUMPTIONS = ['elements nested less than a thousand deep (known finding deep-nesting)']


def deep(ctx):
    """elements nested 12000 deep in a thread with the usual 1 MB stack of other platforms"""
    return ctx.probe('deep', r'''
#include "xml_unpack_base.h"
#include "classdesc_epilogue.h"
#include <pthread.h>
void* body(void*)
{
  std::string d;
  for (int i=0; i<12000; ++i) d+="<a>";
  std::istringstream s(d);
  classdesc::xml_unpack_t x;
  try {x.parse(s);} catch (const std::exception&) {}
  return 0;
}
int main()
{
  pthread_attr_t a; pthread_t t;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a,1<<20);
  pthread_create(&t,&a,body,0);
  pthread_join(t,0);
  return 0;
}
''', asan=False, libs=['-lpthread'])


KNOWN = {'deep-nesting': deep}


def run(ctx):
    c, m, d, n, o = ctx.n(120, 1500), ctx.n(800, 8000), ctx.n(1500, 20000), ctx.n(1500, 20000), ctx.n(800, 8000)
    ctx.run_jobs(xml_jobs(ctx, 'p11', ctx.n(3, 16), [('cut', c, 1), ('mismatch', m, 1), ('damaged', d, 1), ('noise', n, 1), ('oddvalues', o, 1)]))
