"""The checks: which programs decide which property, and what is claimed about them."""
RT = ['the OpenMP runtime is replaced by the controlled one of mc/rt (same ABI), the allocator by a checking one; integer overflow at dimensions whose products reach 2^31 is outside the properties',
      'lscpu, grep and /proc/cpuinfo are stand-ins that describe the enumerated machines; the code that reads them is the real one']


def R(variant, harness, *flags, **kw):
    return dict(variant=variant, harness=harness, flags=list(flags), **kw)


CHECKS = {
    'C01': dict(level='exploration', technique='exhaustive enumeration of bounded shapes, workers, schedules and machines on the real code against an exact integer oracle',
                note='Small-scope exhaustive: tiny caches make every block structure occur at dimensions <= 66; production caches are covered on block boundaries. Trusts gcc, the integer oracle and the replaced OpenMP runtime.',
                runs=[R('prod', 'c01', '-DWHICH=1')], assumptions=RT),
    'C02': dict(level='exploration', technique='exhaustive enumeration of register tiles x bounded shapes x schedules on the real code against an exact integer oracle',
                note='All four shipped tiles; small-scope exhaustive around tile and block boundaries.', runs=[R('prod', 'c01', '-DWHICH=2')], assumptions=RT),
    'C03': dict(level='exploration', technique='exhaustive enumeration of user tile sizes x bounded shapes x schedules on the real code against an exact integer oracle',
                note='All user tiles of up to five register tiles and every depth up to 12 (quick: a part), plus tiles of real sizes.', runs=[R('prod', 'c01', '-DWHICH=3')], assumptions=RT),
    'C04': dict(level='model_checking', technique='stateless model checking of the real code under a controlled OpenMP runtime: all team sizes, orders and nestings; delay-bounded exhaustive schedules with partial-order reduction by vector clocks',
                note='Between unordered conflicting accesses and synchronisation operations every schedule with a bounded number of departures is run; conflict-freedom (C05) makes all other interleavings equivalent to those run. Weak memory is covered only through conflict-freedom.',
                runs=[R('prod', 'c04'), R('tsan', 'c04')], assumptions=RT),
    'C05': dict(level='model_checking', technique='happens-before conflict detection by vector clocks on every parallel region of the instrumented real code, over all enumerated shapes, teams and packings',
                note='A conflict is reported whatever the schedule run, because ordering is decided by synchronisation, not by timing; accesses by instructions the compiler does not instrument (the inline assembly of the two panel packers) are missed; where those write is judged by C18.',
                runs=[R('tsan', 'c05')], assumptions=RT),
    'C06': dict(level='exploration', technique='exhaustive enumeration of configurations on the real code between guard pages, with checking allocator, three fills of uninitialised memory and AddressSanitizer/UBSan builds',
                note='Out-of-matrix accesses fault on both sides; own-buffer overruns are found by canaries, AddressSanitizer and by results that change with the fill of fresh memory and uninitialised locals.',
                runs=[R('prod', 'c06'), R('pat', 'c06', '-DFILL=0xAA'), R('zero', 'c06', '-DFILL=0x00'), R('asan', 'c06')], assumptions=RT),
    'C07': dict(level='exploration', technique='exhaustive enumeration of configurations with read-only input pages, guard pages and special previous contents of C',
                note='Small-scope exhaustive.', runs=[R('prod', 'c07')], assumptions=RT),
    'C08': dict(level='exploration', technique='exhaustive enumeration of packed-operand histories on the real code, bit comparison with the plain call',
                note='Small-scope exhaustive, packed buffers of exactly the reported size between guard pages, reuse up to three calls.', runs=[R('prod', 'c08')], assumptions=RT),
    'C09': dict(level='exploration', technique='exhaustive enumeration of scalars x configurations on the real code against an exact oracle',
                note='Small-scope exhaustive.', runs=[R('prod', 'c09')], assumptions=RT),
    'C10': dict(level='model_checking', technique='explicit-state search to a fixpoint over the reachable states of context, runtime settings and library globals, every transition executed on the real code and compared bit for bit with a fresh process',
                note='States are real: bytes of the context, of the library data segments and the OpenMP settings. The operation alphabet is bounded (shapes, schedules, workers, tiles); the search over it is complete.',
                runs=[R('prod', 'c10')], assumptions=RT),
    'C11': dict(level='exploration', technique='exhaustive enumeration of entry points x options x probed machines, with a ledger of allocations, descriptors and children around every call',
                note='Library allocations go through the checking allocator (double and foreign frees fail at once); descriptors and children are read from the kernel.', runs=[R('prod', 'c11')], assumptions=RT),
    'C12': dict(level='fault_enumeration', technique='exhaustive fault injection: every allocation of every entry point made to fail, once and from there on',
                note='Every single allocation site reached by the enumerated calls; the call runs in a forked child whose ending is judged.', runs=[R('prod', 'c12')], assumptions=RT),
    'C13': dict(level='exploration', technique='exhaustive enumeration of probed command outputs from a grammar of formats and failures, each followed by real multiplications',
                note='lscpu, grep and /proc/cpuinfo are stand-ins printing the enumerated text; commands that fail, print nothing or print garbage are among them.',
                runs=[R('prod', 'c13')], assumptions=RT),
    'C14': dict(level='exploration', technique='exhaustive enumeration of M x N x p on the real grid search against a brute-force oracle',
                note='All p up to 130 (thorough: 600) and selected ones up to 1024.', runs=[R('prod', 'c14')], assumptions=RT),
    'C15': dict(level='exploration', technique='exhaustive enumeration of shapes x p x machines on the real schedule choice against the traffic model evaluated in double precision',
                note='Ties within single-precision rounding accept either schedule.', runs=[R('prod', 'c15')], assumptions=RT),
    'C16': dict(level='exploration', technique='exhaustive enumeration of shapes x p x caches x tiles on the real tiling code, production-scale dimensions included, against a covering and capacity oracle',
                note='The tiling is walked as the schedules walk it; that the schedules do walk it so is C01.', runs=[R('prod', 'c16')], assumptions=RT),
    'C17': dict(level='exploration', technique='exhaustive enumeration of generator limits x table entries x depths x basis inputs on the compiled generated kernels, between guard pages, against an exact oracle',
                note='Armv8 kernels are compiled for x86 with element-wise stand-ins for the Neon intrinsics; the generated C++ is what is judged, not Arm code generation.',
                python='c17', assumptions=['mc/neon implements the Neon intrinsics used as the Arm reference describes them']),
    'C18': dict(level='exploration', technique='exhaustive enumeration of shapes x schedules x p x tiles on the real packing code against a multiset and layout oracle, between guard pages',
                note='Small-scope exhaustive.', runs=[R('prod', 'c18'), R('tsan', 'c18')], assumptions=RT),
    'C19': dict(level='exploration', technique='exhaustive enumeration of sizes x tile parameters x thread orders on the real transpose, and of its delay-bounded interleavings',
                note='Small-scope exhaustive.', runs=[R('prod', 'c19'), R('tsan', 'c19')], assumptions=RT),
    'C20': dict(level='exploration', technique='exhaustive enumeration of shapes x wrong positions x perturbations on the real checkers',
                note='Small-scope exhaustive.', runs=[R('prod', 'c20'), R('tsan', 'c20')], assumptions=RT),
    'C21': dict(level='exploration', technique='exhaustive enumeration of the position and kind of a non-finite element x configurations on the real code against the defining sum',
                note='Small-scope exhaustive.', runs=[R('prod', 'c21')], assumptions=RT),
    'C22': dict(level='exploration', technique='exhaustive enumeration of scripted clocks x configurations; the returned value must be an identified difference of readings',
                note='The clock functions are replaced; all differences of a script are distinct, so the readings used are identified.', runs=[R('prod', 'c22')], assumptions=RT),
    'C23': dict(level='model_checking', technique='stateless model checking of two user threads in the instrumented real code: delay-bounded exhaustive interleavings at every conflicting access and synchronisation operation, happens-before conflict detection',
                note='Every access of the library is instrumented; interleavings between independent accesses are equivalent and not repeated.',
                runs=[R('tsan', 'c23')], assumptions=RT),
    'C24': dict(level='model_checking', technique='exhaustive enumeration of call histories with different worker counts; every team request of every region is observed by the replaced runtime',
                note='All histories up to the stated length over the stated calls.', runs=[R('prod', 'c24')], assumptions=RT),
    'C25': dict(level='exploration', technique='exhaustive enumeration of invalid schedule values x entry points in forked children with read-only outputs',
                note='All values -8..40 and boundary values of int.', runs=[R('prod', 'c25')], assumptions=RT),
    'C26': dict(level='exploration', technique='exhaustive enumeration of boundary values of the random source x shapes on the real initialisers',
                note='rand() is replaced; thorough runs every value it can return through the generators.', runs=[R('prod', 'c26')], assumptions=RT),
    'C27': dict(level='model_checking', technique='explicit-state search to a fixpoint over source-tree states under installation operations, every transition executed by the real generators; plus exhaustive core counts and tile limits with compilation and execution',
                note='States are the bytes of the tree. Armv8 trees are compiled with stand-ins for the Neon intrinsics; uname, lscpu, grep and git are stand-ins.',
                python='c27', assumptions=['mc/neon stands in for <arm_neon.h>']),
    'C28': dict(level='exploration', technique='exhaustive enumeration of cache sizes at every block border (one byte less, exact, one more) x dimensions at every border x p x cores x tiles on the real tiling code, against a search for the largest block that fits',
                note='Blocks up to 170 register-tile rows; type size 4. Where the size the L3 gives fits with equality either neighbour is accepted (square root in floating point).',
                runs=[R('prod', 'c28')], assumptions=RT),
    'C29': dict(level='exploration', technique='exhaustive enumeration of generator limits x table entries x nonzero patterns x column orders on the compiled generated sparse kernels, between guard pages, against an exact oracle',
                note='The packed form the kernels take is the one their interface implies (values, column sizes, B row of every column, C row of every value); the library has no packer for it. Armv8 kernels as in C17.',
                python='c29', assumptions=['mc/neon implements the Neon intrinsics used as the Arm reference describes them']),
    'C30': dict(level='exploration', technique='exhaustive enumeration of bounded shapes, tiles, schedules, scalars, packed histories and workers on the real Armv8 build of the library against an exact integer oracle, between guard pages and under AddressSanitizer',
                note='The Armv8 sources are compiled for x86 with element-wise stand-ins for the Neon intrinsics: the C++ of the Armv8 configuration is judged, not Arm code generation or Arm memory ordering.',
                runs=[R('arm', 'c01', '-DWHICH=2', '-DMC_PROPID=C30'), R('arm', 'c18', '-DMC_PROPID=C30'), R('arm', 'c09', '-DMC_PROPID=C30'), R('arm', 'c08', '-DMC_PROPID=C30'), R('arm', 'c06', '-DMC_PROPID=C30'), R('armasan', 'c06', '-DMC_PROPID=C30')],
                assumptions=RT + ['mc/neon implements the Neon intrinsics used as the Arm reference describes them']),
    'C31': dict(level='exploration', technique='exhaustive enumeration of bounded shapes, schedules, scalars, packed forms and workers on the real BLIS build of the library against an exact integer oracle, between guard pages and under AddressSanitizer',
                note='BLIS itself is not installed: mc/blis provides the few names of its interface that are used, with a kernel that computes what the interface says and stops on arguments it forbids.',
                runs=[R('blis', 'c01', '-DWHICH=1', '-DMC_PROPID=C31'), R('blis', 'c09', '-DMC_PROPID=C31'), R('blis', 'c08', '-DMC_PROPID=C31'), R('blis', 'c07', '-DMC_PROPID=C31'), R('blisasan', 'c06', '-DMC_PROPID=C31')],
                assumptions=RT + ['mc/blis behaves as the BLIS interface says']),
    'C32': dict(level='exploration', technique='exhaustive enumeration of bounded batch and layer sizes, tensor layouts, biases, machines and call sequences on the real extension code against an exact integer oracle and the allocation ledger',
                note='PyTorch is not installed: src/linear.cpp is compiled against mc/torch, a stand-in for the part of the C++ interface it uses (strided views, shared storage, pybind11 argument passing). python/cake.py and setup.py are not covered.',
                runs=[R('torch', 'c32'), R('torchasan', 'c32', thorough_only=True)], assumptions=RT + ['mc/torch behaves as the PyTorch interface says']),
    'C33': dict(level='exploration', technique='exhaustive enumeration of kinds of inexact data x scalars x bounded shapes, schedules, workers, tiles and machines on the real code against the classical error bound evaluated in double precision',
                note='Shapes are enumerated exhaustively within the bounds, the data only by kind (nine kinds, one fixed instance each per seed). Overflow is outside the property.', runs=[R('prod', 'c33')], assumptions=RT),
}
NOT_APPLICABLE = {}
