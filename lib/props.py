"""What decides each property: clauses of the contract, models, generated behaviours, build of the harness, runs."""
import os, json, re
import tlc, battery
from h import Call, F_TAIL

COMMON_ASSUMPTIONS = [
    'inputs are zero or of magnitude between 2^-30 and 2^30 (2^-60 and 2^60 for vectors in double precision and for scalars with absolute bounds); relative bounds are below 1',
    'the 3D encoder is compiled against a stand-in for the one FTK header it includes, which is not installed',
]

# models: (module, configuration, configurations of variants in which TLC has to find a mistake)
T = ('ExactRealTest', 'ExactRealTest.cfg')
GEO2 = ('MCGeoTest', 'GeoTest.cfg')
GEO3 = ('MCGeoTest', 'GeoTetW.cfg')
BILIN = ('MCBilinearTest', 'BilinearTest.cfg')
ABSCP = ('MCAbsCp', 'AbsCp.cfg', ('AbsCp_nonstrict.cfg', 'AbsCp_half.cfg'))
RELON = ('MCRelCp', 'RelCp_online.cfg', ('RelCp_online_half.cfg', 'RelCp_online_nodisc.cfg'))
RELOFF = ('MCRelCp', 'RelCp_offline.cfg', ('RelCp_offline_half.cfg', 'RelCp_offline_nodisc.cfg'))
RELAX = ('MCRelaxCp', 'RelaxCp.cfg', ('RelaxCp_unverified.cfg', 'RelaxCp_blind.cfg'))
INTERP = ('Interp', 'Interp.cfg', ('Interp_notail.cfg', 'Interp_step.cfg'))
HUFF = ('MCHuffman', 'Huffman.cfg', ('Huffman_offbyone.cfg', 'Huffman_greedy.cfg'))
PIPE = ('MCPipeline', 'Pipeline.cfg', ('Pipeline_original.cfg', 'Pipeline_capacity.cfg', 'Pipeline_garbage.cfg'))
BITS = ('BitPack', 'BitPack.cfg', ('BitPack_floor.cfg',))
MESH = ('Mesh', 'Mesh.cfg', ('Mesh_swap.cfg',))
BLOCKS = ('Blocks', 'Blocks.cfg', ('Blocks_rest.cfg',))
FILES = ('Files', 'Files.cfg', ('Files_up.cfg', 'Files_append.cfg'))
LOGPWR = ('LogDomain', 'LogDomain_pwr.cfg', ('LogDomain_near.cfg', 'LogDomain_tight.cfg'))
LOGEACH = ('LogDomain', 'LogDomain_each.cfg', ('LogDomain_eachnear.cfg',))
LOGFIX = ('LogDomain', 'LogDomain_fixed.cfg', ('LogDomain_nosign.cfg',))
TETON = ('MCTetCp', 'TetCp_online.cfg', ('TetCp_online_half.cfg',))
TETABS = ('MCTetCp', 'TetCp_abs.cfg', ('TetCp_abs_half.cfg',))
TETOFF = ('MCTetCp', 'TetCp_offline.cfg', ('TetCp_offline_half.cfg', 'TetCp_offline_square.cfg'))
EBZERO = ('EbQuant', 'EbQuant_zero.cfg', ('EbQuant_round.cfg',))
EBTOP = ('EbQuant', 'EbQuant_top.cfg', ('EbQuant_low.cfg', 'EbQuant_stale.cfg'))
EBCODE = ('EbQuant', 'EbQuant_code.cfg', ('EbQuant_one.cfg',))
ROOM = ('Lossless', 'Lossless.cfg', ('Lossless_same.cfg', 'Lossless_small.cfg'))
WALK = ('Sampling', 'Sampling.cfg', ('Sampling_stuck.cfg',))
LAYOUT = ('Layout', 'Layout.cfg', ('Layout_swapped.cfg', 'Layout_bytes.cfg', 'Layout_short.cfg'))

PROPS = {
    'P01': dict(clauses=['cp2'], models=[T, GEO2, ABSCP, RELAX], build='plain'),
    'P02': dict(clauses=['vertex'], models=[T, GEO2, ABSCP, RELAX, MESH], build='plain'),
    'P03': dict(clauses=['bound'], models=[T, PIPE, EBZERO, EBCODE], build='plain'),
    'P04': dict(clauses=['cp2', 'kind'], models=[T, GEO2, RELON, RELOFF], build='plain'),
    'P05': dict(clauses=['bound'], models=[T, PIPE, LOGEACH, LOGFIX, EBZERO, EBCODE, EBTOP], build='plain'),
    'P06': dict(clauses=['bilinear'], models=[T, BILIN], build='plain'),
    'P07': dict(clauses=['cp3', 'bound'], models=[T, GEO3, MESH, TETON, TETABS, TETOFF, EBTOP], build='plain'),
    'P08': dict(clauses=['bound'], models=[T, PIPE, BLOCKS], build='plain'),
    'P09': dict(clauses=['bound'], models=[T, PIPE, BLOCKS], build='plain'),
    'P10': dict(clauses=['bound'], models=[T, LOGPWR], build='plain'),
    'P11': dict(clauses=['same', 'consumed'], models=[HUFF], build='plain'),
    'P12': dict(clauses=['same', 'consumed'], models=[BITS], build='asan'),
    'P13': dict(clauses=['output'], models=[LAYOUT, PIPE], build='asan'),
    'P14': dict(clauses=['pure', 'output'], models=[PIPE], build='plain', runs=2),
    'P15': dict(clauses=[], models=[RELAX, INTERP, WALK], build='asan'),
    'P16': dict(clauses=['same', 'lossless', 'output'], models=[ROOM], build='plain'),
    'P17': dict(clauses=['bound'], models=[T, INTERP, BLOCKS], build='plain'),
    'P18': dict(clauses=['size'], models=[HUFF], build='plain'),
    'P19': dict(clauses=['same', 'file', 'pure'], models=[FILES], build='asan'),
    'P20': dict(clauses=['stats', 'pure'], models=[T], build='plain'),
    'ALL': dict(clauses=['cp2', 'vertex', 'bound', 'kind', 'bilinear', 'cp3', 'same', 'consumed', 'output', 'pure', 'lossless', 'size'],
                models=[], build='plain', runs=2),
}


# small requests enumerated by spec/Gen.tla: kind -> (methods, types, bounds in 1/1024, lengths, base, largest stride-one count)
def G(kind, ops, typs=('float', 'double'), ebs=(100,), lens=(1,), base=2, quick=1500, thorough=60000):
    return dict(kind=kind, ops=ops, typs=typs, ebs=ebs, lens=lens, base=base, quick=quick, thorough=thorough)


ABS2 = ('sz3_abs', 'online_abs', 'relax')
REL2 = ('online', 'online_log', 'offline', 'offline_log')
ABS_EB, REL_EB = (80, 700, 3000), (20, 300, 900)
ABSGEN = [G('fields22', ABS2, ebs=ABS_EB, quick=2500), G('fields23', ABS2, ebs=ABS_EB, quick=2500)]
RELGEN = [G('fields22', REL2, ebs=REL_EB, quick=2500), G('fields23', REL2, ebs=REL_EB, quick=2500)]
BIGEN = [G('fields22', ('bilinear',), ebs=REL_EB, quick=2500), G('fields23', ('bilinear',), ebs=REL_EB, quick=2500)]
GEN3 = [G('tets', ('unst3',), ebs=REL_EB, quick=2000), G('cubes', ('off3', 'log3'), ebs=REL_EB, quick=2000), G('cubes', ('abs3',), ebs=ABS_EB, quick=1000)]
SCGEN = [G('scalars', ('sz2d', 'sz2d_eb'), ('float',), ebs=(80, 600, 1500), quick=3000), G('scalars', ('sz2d_eb',), ('double',), ebs=(80, 1500), quick=3000)]
PROPS['P01']['gens'] = ABSGEN
PROPS['P02']['gens'] = ABSGEN + GEN3[2:]
PROPS['P03']['gens'] = ABSGEN
PROPS['P04']['gens'] = RELGEN
PROPS['P05']['gens'] = RELGEN + BIGEN
PROPS['P06']['gens'] = BIGEN
PROPS['P07']['gens'] = GEN3
PROPS['P08']['gens'] = [G('scalars', ('sz2d',), ('float',), ebs=(80, 600, 1500), quick=3000)]
PROPS['P09']['gens'] = [G('scalars', ('sz2d_eb',), ebs=(80, 600, 1500), quick=3000)]
PROPS['P10']['gens'] = [G('scalars', ('pwr2d', 'pwr2d_eb'), ('float',), ebs=(80, 600), quick=3000)]
PROPS['P11']['gens'] = [G('symbols', ('huffman',), ('float',), ebs=(b, 512, 65536), lens=range(0, n + 1), base=b, quick=4000) for b, n in ((2, 7), (3, 5), (5, 3))]
PROPS['P18']['gens'] = PROPS['P11']['gens']
PROPS['P12']['gens'] = [G('flags', ('bits',), ('float',), ebs=(1,), lens=range(1, 12), quick=5000)]
PROPS['P16']['gens'] = [G('bytes', ('lossless',), ('float',), ebs=(1, 3), lens=range(0, 7), quick=3000)]


def tlaset(xs):
    return '{' + ', '.join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + '}'


LIMIT = dict(fields22=3 ** 8, fields23=3 ** 12, tets=3 ** 12, cubes=2 ** 24, scalars=256)


def generated(g, tier, seed, spec, jdir, prop):
    """enumerates with TLC; every request, or every stride-th starting at an offset given by the seed"""
    combos = len(g['ops']) * len(g['typs']) * len(g['ebs']) * len(g['lens'])
    limit = LIMIT.get(g['kind'], 0)
    want = g[tier if tier == 'thorough' else 'quick']
    stride = max(1, -(-limit * combos // want))
    while stride > 1 and (stride % 2 == 0 or stride % 3 == 0):
        stride += 1
    tag = f"{prop}{g['kind']}{len(g['ops'])}{g['base']}{g['ops'][0]}"
    cfg = os.path.join(spec, f'Gen{tag}.cfg')
    open(cfg, 'w').write(f'''SPECIFICATION Spec
CONSTANTS
  Kind = "{g['kind']}"
  Ops = {tlaset(g['ops'])}
  Typs = {tlaset(g['typs'])}
  Ebs = {tlaset(g['ebs'])}
  Len1 = {tlaset(g['lens'])}
  Stride = {stride}
  Offset = {seed * 7919 % stride}
  Base = {g['base']}
INVARIANT Emit
CHECK_DEADLOCK FALSE
''')
    h = tlc.finish(tlc.start(spec, 'Gen', cfg, jdir, 1, heap='2g', tag=tag))
    if not h['ok']:
        raise RuntimeError('Gen: ' + h['text'][-1500:])
    flat = h['text'].replace('\n', ' ')
    reqs = []
    for m in re.finditer(r'<<\s*"G",(.*?)>>\s*(?=<<\s*"G"|[A-Z])', flat):
        reqs.append(json.loads('[' + m.group(1).replace('<<', '[').replace('>>', ']') + ']')[0])
    if len(reqs) != h['distinct']:
        raise RuntimeError(f"Gen: {h['distinct']} states but {len(reqs)} requests " + h['text'][:1500])
    calls = []
    for op, typ, r1, r2, r3, eb, bsize, bi, arrays in reqs:
        if op.endswith('_eb'):
            arrays[1] = [x / 1024 for x in arrays[1]]
        calls.append(Call(op, typ, (r1, r2, r3), eb / 1024, arrays, bsize=bsize, flags=bi | (F_TAIL if op == 'huffman' else 0)))
    return battery.pack(calls, maxcalls=100), dict(kind=g['kind'], requests=len(calls), stride=stride, of=limit * combos or len(calls))
