from vf import U
LEVEL = 'proof'
def u(n, name, defs={}, split=[], cuts=[], **k):
    k.setdefault('unwind', 3)
    return U('C13.'+name, 'hmap.c', n, defs=defs, inject={'hashmap.c': [('cut',)+c for c in cuts] + [('split', s) for s in ['fnv_hash','match']+split]}, timeout=300, fuzz=3000, **k)
P='probe(&$i)'
UNITS = [u('h_get', 'get_entry', {'UNIT_GET':None}, cuts=[('get_entry',0,P)], funcs=['get_entry']),
 u('h_get2', 'get', {'GET_BY_CONTRACT':None}, ['get_entry'], funcs=['hashmap_get2']),
 u('h_delete', 'delete', {'GET_BY_CONTRACT':None}, ['get_entry'], funcs=['hashmap_delete2']),
 u('h_empty', 'empty', funcs=['hashmap_get2','hashmap_delete2','get_entry']),
 u('h_put', 'put', {'UNIT_PUT':None}, ['rehash'], [('get_or_insert_entry',0,P)], funcs=['hashmap_put2','get_or_insert_entry']),
 u('h_put', 'put_full', {'UNIT_PUT':None,'FULL':None}, ['rehash'], [('get_or_insert_entry',0,P)], funcs=['hashmap_put2','get_or_insert_entry']),
 u('h_put_fills', 'put_fills', {'UNIT_PUT':None}, ['rehash'], [('get_or_insert_entry',0,P)], funcs=['get_or_insert_entry']),
 u('h_first', 'first', {'UNIT_PUT':None}, ['rehash'], unwind=17, funcs=['get_or_insert_entry']),
 u('h_rehash', 'rehash', {'UNIT_REHASH':None}, ['rehash','hashmap_put2'], [('rehash',0,'cut0(&$i, &nkeys)'),('rehash',1,'cut1(&cap, nkeys)'),('rehash',2,'cut2(&$i, &map2)')], funcs=['rehash']),
 U('C13.hash', 'hmap.c', 'h_hash', defs={'VF_REALHASH':None}, unwind=6, funcs=['fnv_hash'], fuzz=3000, bounded='keys of at most 4 bytes', solver=('z3','cvc5')),
 U('C13.match', 'hmap.c', 'h_match', defs={'VF_REALHASH':None}, unwind=6, funcs=['match'], fuzz=3000, bounded='keys of at most 3 bytes'),
 U('C13.strings', 'hmap.c', 'h_wrap', defs={'VF_REALHASH':None,'UNIT_STR':None}, inject={'hashmap.c': [('split', s) for s in ['hashmap_get2','hashmap_put2','hashmap_delete2']]}, unwind=6, funcs=['hashmap_get','hashmap_put','hashmap_delete'], fuzz=3000),
]
ASSUMPTIONS=['a key is represented by an identity of its bytes; match() and fnv_hash() enter the table proofs by contract (match: same length and bytes, bounded at 3 bytes; fnv_hash: a function of the bytes, bounded at 4 bytes)',
 'counting lemmas taken as mathematics: fewer occupied slots than capacity leaves a free slot; live slots are at most the occupied ones',
 'capacity at most 2^24 entries (beyond it used*100 overflows int)', 'key memory outlives the map and is not modified (callers\' obligation)', 'calloc returns fresh zeroed memory']
