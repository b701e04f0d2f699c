#!/usr/bin/env python3
"""Writes DESIGN.md from the check modules, properties.jsonl, known_findings.txt, seeded/*/meta.json and the text below."""
import glob, importlib, json, os, sys
R = os.environ.get('VERIF_ROOT') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + '/lib', R + '/checks']

# per property: (harness files, cost in seconds of quick, why this reaches what tests cannot)
WHY = {
 'P01': ('lib/families.py, typegen.py, values.h, h_pack.cc', '30', 'The tests pack a few hand-written classes with fixed values. Loss of a value depends on the combination of member type, nesting, container kind, size and position in the buffer; families are drawn at random over all of these, and the equality is not written with classdesc.'),
 'P02': ('h_pack.cc', '57', 'That leftovers of the old contents survive an unpack shows only for used targets of a particular shape; that the comparison is a total order shows only on triples.'),
 'P03': ('h_buf.cc', '9', 'The buffer is a state machine (position, size, mode, moved-from). A bug needs a sequence: write, seek back, read past, reset, write again. The tests walk one such path.'),
 'P04': ('h_hostile.cc', '28-62', 'Tests give no damaged input at all. The claim is over every cut and every damaged length.'),
 'P05': ('h_graph.cc', '6-24', 'Sharing, cycles, depth limits and abandoned traversals; the test suite has one graph and one tree.'),
 'P06': ('h_ref.cc', '5', 'Aliasing histories: self assignment, assignment of a target of the target, cycles, counters that overflow.'),
 'P07': ('h_xdr.cc, h_pack.cc', '13-21', 'Portability of the format is a statement about bytes; the tests only read back what they wrote, which a symmetric error survives. The encoder here was written from RFC 4506 alone.'),
 'P08': ('h_xml.cc', '27', 'As P01; strings of markup, white space and unusual numbers are what ordinary tests leave out.'),
 'P09': ('h_xml.cc, expat', '31-61', 'A round trip says nothing about whether the document is XML, or its names are right: writer and reader agree with each other. expat and an element tree not computed by classdesc decide.'),
 'P10': ('h_xml.cc', '36-46', 'The set of documents that mean the same is unbounded; the writer draws from it at random.'),
 'P11': ('h_xml.cc', '40-92', 'Hostile input, under sanitizers; two stream types as a differential oracle.'),
 'P12': ('h_xsd.cc, libxml2', '25', 'A schema must accept every document of the class and reject ones that are not: libxml2 is the judge.'),
 'P13': ('h_dump.cc', '12-20', 'Completeness of the dump over all member kinds.'),
 'P14': ('h_random.cc', '20-44', 'Scripted randomness including 0 and the largest number below 1, where off-by-one indices live; the tests use rand().'),
 'P15': ('lib/enumgen.py, h_enum.cc', '37-56', 'Enum declarations have many spellings (values by expression, comments, trailing commas, scoped, nested); the compiler gives the values.'),
 'P16': ('lib/typegen.py, p16.py', '2-8', 'Given back to the compiler, a name that denotes another type fails to compile: an oracle that needs no list of names.'),
 'P17': ('lib/clsgen.py, clscheck.py, visit_base.h', '12-16', 'The generator of descriptors is a hand-written parser for C++. The tests compare its output for some 30 headers with stored text; here each class is built from parts of which the generator of the case knows what has to be visited.'),
 'P18': ('lib/layout.py, p18.py', '20-30', 'A metamorphic relation needs no expected output, so it reaches every header that can be generated; mutated headers find crashes, hangs and reads out of bounds.'),
 'P19': ('lib/clscheck.py, exclude.py', '35-56', 'That something is *not* touched is never what a test looks at.'),
 'P20': ('lib/clscheck.py, statics.py', '54-79', 'The options multiply; the tests run a handful of combinations.'),
 'P21': ('lib/functional.py', '33-40', 'Signatures of any arity and kind, by every calling route; tests cover some of small arity.'),
 'P22': ('lib/polygen.py', '18', 'Hierarchies of any shape, in all styles the library offers, not only those of the examples.'),
 'P23': ('h_multi.cc', '7', 'Index arithmetic over all ranks, extents and levels.'),
 'P24': ('h_json.cc, json_extra.h, lib/json5stub', '48-54', 'The JSON tests cannot even be built in this checkout (the json5_parser submodule is absent), so nothing tests this code here.'),
 'P25': ('h_rest.cc, rest_types.h', '23-84', 'As P24: untested here. Histories of commands against a model find commands that touch what they should not.'),
 'P26': ('h_mpi.cc', '13-25', 'Histories over several processes with wildcards and waiting messages; the test suite has no MPI test that runs here.'),
 'P27': ('lib/jclass.py, javac', '20-42', 'Byte-exact identity over generated files, with the limits of every field.'),
 'P28': ('h_bin.cc', '16', 'Every kind of value in every kind of buffer, next to every other.'),
 'P29': ('lib/traits.py', '3-8', 'Traits are statements over all types; types of known nature are generated, so that both answers are checked.'),
}

HEAD = '''# Design

(Written by tools/mkdesign.py from the check modules, properties.jsonl, known_findings.txt and seeded/.)

## What is checked

classdesc generates, from C++ headers, descriptors that serialise and otherwise reflect on classes. The %d properties cover
its parts: the generator itself (P17-P20), binary serialisation and its buffers (P01-P07, P28), XML and schemas (P08-P12),
dump and random initialisation (P13, P14), enums and type names (P15, P16), functional reflection (P21), polymorphism (P22),
multi-dimensional views (P23), JSON (P24), REST (P25), message passing (P26), Java class files (P27) and the type traits (P29).
%s

## The technique

Every property is decided by generated-input search against an explicit oracle. There are four kinds of generators:

1. **Class families** (lib/typegen.py, families.py): random C++ type definitions, for which the generator also emits - itself,
   without classdesc - equality, printing, filling by random choices, and the trees of what XML, JSON, dump should show. The
   family is put through /repo's `classdesc`, compiled with /repo's headers and the harness `lib/h_*.cc`, and driven by
   `lib/pbt.h`: cases are sequences of choices drawn from a seeded source, distinct cases are counted by their
   choices, and failing sequences are shrunk (blocks deleted, choices lowered) to a minimal one, which is the replay file.
2. **Class declarations** (lib/clsgen.py): headers with everything C++ classes hold, in varied spelling, where each part knows what a
   descriptor has to visit. Shrinking removes classes, parts, bases, namespaces.
3. **Histories** (buffers, refs, views, REST, MPI, BinStream): random operation sequences run next to a plain model, all
   observables compared after every operation.
4. **Damage**: buffers, documents and headers cut, mutated or replaced by noise, run under AddressSanitizer and UBSan.

Every check rebuilds from /repo's current tree: the driver (lib/driver.py) copies the tree, without what git ignores, to a folder
under /verif/build (in .gitignore), builds `classdesc` and what belongs to it, and keys compiled harnesses by the contents of what goes in. No test of the
repository, and no generated file of its tree, is used. Checks judge what the code does: text of the source is never looked at.
`./run PXX quick|thorough` runs one, `./run replay FILE` a recorded failure. VERIF_SEED gives other cases; the thorough tier raises the number of
cases by a factor of about 20.

Evidence (evidence/PXX.json) gives the numbers of cases, distinct cases, non-trivial ones (by the rule stated for each property below),
their classification by label, samples, and what was thrown away.

**JSON and REST.** The json5_parser submodule is not in this checkout and cannot be fetched. lib/json5stub is a stand-in with its
interface (mValue, mObject, mArray, read, write, Config), written for this purpose. What the checks of P24 and P25 say holds for classdesc's own code
on top of a parser that behaves as json5_parser's documentation says.

**What this family cannot do.** It samples: a pass says that no counterexample was found among so many cases, not that there is none. Where classdesc does not compile
for a type (a limit that its documentation states, or that I judged to be one), the generator leaves that type out; these limits are listed under "bounds" of each property.
'''

FALSE = '''## False alarms, and what was done about them

Alarms that turned out to be wrong expectations of mine; in each case the property or the machinery was corrected:

- P02, P09, P24: the order of the elements of unordered containers is not part of their value: comparisons of layout leave these containers out.
- P09, P24: a null smart pointer is an empty element in XML and `{}` in JSON, arrays are flat in XML but nested in JSON; the expected trees follow this.
- P12, P14 in C++98: smart pointers need C++11 or TR1; the families for C++98 leave them out there.
- P11: deep nesting overflows a small stack by the recursive design of the parser: not an alarm of the search, which bounds the depth, but a known finding with a probe of its own.
- P15: enum tables exist only with -typeName; `<::` in generated C++98 text is a digraph, which was the fault of the case.
- P17: bit-fields, reference members and anonymous structs are documented as not supported; classes with these are not generated.
- P18: the `[[` of an attribute is kept together, and rewritings that change the meaning for a compiler are not made.
- P19: CLASSDESC_ACCESS makes friends of a fixed list of descriptors; the check of insert-friend uses these.
- P25: elements of maps reached by a path that is continued later are presented by value, two dimensional arrays first dimension fastest (RESTProcessExpected.txt); the model follows this.
'''


def main():
    props = [json.loads(l) for l in open(R + '/properties.jsonl')]
    na = json.load(open(R + '/tools/not_applicable.json'))
    finds = [l.strip() for l in open(R + '/known_findings.txt') if l.strip() and not l.startswith('#')]
    seeds = {}
    for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
        d = json.load(open(f))
        seeds.setdefault(d['property'], []).append((f.split('/')[-2], d))
    out = [HEAD % (len(props), 'None of the properties is out of reach of the technique (not_applicable is empty).' if not na else 'Not claimed: %s.' % na)]
    out.append('## Properties\n')
    for p in props:
        m = importlib.import_module(p['id'].lower())
        files, cost, why = WHY[p['id']]
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append(p['statement'] + '\n')
        out.append('- **Technique.** %s.' % m.TECHNIQUE.rstrip('.'))
        out.append('- **Generated, and the oracle.** ' + m.NOTE)
        out.append('- **Non-trivial, distinct.** %s.' % m.RULE.rstrip('.'))
        out.append('- **Bounds and assumptions.** %s.' % '; '.join(a.rstrip('.') for a in m.ASSUMPTIONS))
        out.append('- **Why beyond the tests.** ' + why)
        out.append('- **Machinery and cost.** checks/%s.py, %s; quick about %s s on 8 cores.' % (p['id'].lower(), files, cost))
        fx = [f for f in finds if 'property=%s ' % p['id'] in f]
        fixed = [f.split(' ', 3) for f in fx if f.startswith('fixed')]
        known = [f for f in fx if f.startswith('known')]
        if known:
            out.append('- **Known findings.** ' + ' / '.join(k.split('id=', 1)[1] for k in known))
        if fixed:
            out.append('- **Defects found and repaired (%d).** ' % len(fixed) + '; '.join('%s (%s)' % (f[3], f[2][:7]) for f in fixed) + '.')
        for s, d in seeds.get(p['id'], []):
            out.append('- **Seeded bug** `%s`: %s - needs %s. Caught by the check of %s.' % (s, d['what_it_breaks'], d['needs'], p['id']))
        out.append('')
    out.append(FALSE)
    nf = sum(f.startswith('fixed') for f in finds)
    out.append('''## Findings

%d defects of the code were found by these checks and repaired by "fix:" commits in /repo, each listed under its property above and in known_findings.txt; the
check that found it fails again if it returns. %d are recorded as known findings, because repair would change a format or an interface, or is a design limit.
A known finding is identified by the very input (a probe that the check runs on its own, separate from the search); the search leaves only that input out.

## Seeded bugs

%d changes, each written from the text of a property, building and passing the existing tests, with a demonstration; each was applied to /repo, found by the check of its property, and undone.
Where the check missed one at first it was extended, last for p17-shorn-name (methods that take the class itself, of class templates, with -overload, were not generated; adding them also found
that specialisations differing in punctuation shared a guard macro, so that only the first had descriptors).

%s
''' % (nf, len(finds) - nf, sum(map(len, seeds.values())), EXTRA))
    open(R + '/DESIGN.md', 'w').write('\n'.join(out))


EXTRA = '''## Not covered

- Objective-C output (-objc) and the deprecated isa descriptor: no property is stated for them.
- Concurrency: the library has no locks and makes no promise; MPI's are covered by P26.
- Performance (pack_t grows a byte at a time, so large buffers take quadratic time in some allocators): not a stated guarantee.
- `Signature::operator==` ignores the return type; C++11 `Arity<CurryFirst>` members are not static: internal, not stated as properties.
'''

if __name__ == '__main__':
    main()
