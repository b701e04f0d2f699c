from driver import Job

LEVEL = 'exploration'
TECHNIQUE = 'stateful property-based testing of ref against a reference counting model'
NOTE = ('Histories of up to 60 operations on up to 40 refs whose targets hold further refs (lists, cycles, containers of refs). Crowds of up to 65700 refs share few targets. After each operation every ref, '
        'its count and the set of live targets are compared with the model; AddressSanitizer and a registry of constructed objects see use or destruction of dead targets.')
RULE = 'history: non-trivial = at least 8 operations with 2 or more that alias (self, link, own target); crowd: more than 250 refs to one to three targets'
ASSUMPTIONS = ['targets are copyable and have a default constructor', 'single thread', 'cycles of refs are not reclaimed, as reference counting implies']


def run(ctx):
    n, c = ctx.n(20000, 600000), ctx.n(400, 20000)
    ctx.run_jobs([Job('ref98', 'lib/h_ref.cc', cases=[('history', n, 4), ('crowd', c, 1)]), Job('ref17', 'lib/h_ref.cc', std='c++17', cases=[('history', n, 4), ('crowd', c, 1)])])
