from driver import Job

LEVEL = 'exploration'
TECHNIQUE = 'stateful property-based testing of BinStream over every buffer type against the raw bytes of the values'
NOTE = ('Random sequences of plain values, plain structures, arrays and containers of them are streamed in and out of BinStream and BinStreamT over pack_t and xdr_pack, in memory and in files; every byte of the buffer is compared '
        'with the values\' own bytes (padded to four for XDR), and every value is read back into an object that already held something else. Under AddressSanitizer.')
RULE = 'memory: more than 2 items written and more than 1 read; file: more than 2 items'
ASSUMPTIONS = ['plain data only, as documented: no strings, no elements of vectors or maps that are themselves containers']


def run(ctx):
    n, f = ctx.n(8000, 300000), ctx.n(1500, 40000)
    ctx.run_jobs([Job('bin98', 'lib/h_bin.cc', cases=[('memory', n, 1), ('file', f, 1)]),
                  Job('bin17', 'lib/h_bin.cc', std='c++17', cases=[('memory', n, 1), ('file', f, 1)]),
                  Job('bin20', 'lib/h_bin.cc', std='c++20', cases=[('memory', n, 1), ('file', f, 1)])])
