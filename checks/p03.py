from driver import Job

LEVEL = 'exploration'
TECHNIQUE = 'stateful property-based testing of pack_t against a byte string model; differential test of file modes against memory'
NOTE = ('Histories of up to 80 operations on three buffers, every observable (size, position, contents, operator bool, exceptions) compared with the model after each; '
        'C++98 and C++17 (moves). Under AddressSanitizer.')
RULE = ('history: generated operation sequence, non-trivial = at least two writes, a read and a seek or reset; '
        'file: 1-12 items written to a file and to memory, non-trivial = more than two items and 32 bytes')
ASSUMPTIONS = ['seeko stays inside the written data, seeki goes back no further than the start (their documented domain)',
               'bytes gained by resize are unspecified until written', 'a moved from buffer is only cleared, assigned or destroyed']


def run(ctx):
    c = ctx.n(60000, 2000000)
    f = ctx.n(4000, 60000)
    ctx.run_jobs([Job('buf98', 'lib/h_buf.cc', cases=[('history', c, 4), ('file', f, 2)]),
                  Job('buf17', 'lib/h_buf.cc', std='c++17', cases=[('history', c, 4), ('file', f, 2)])])
