"""property -> analysis modules, level and technique (also the source of MANIFEST.json, see tool/mkmanifest.py)"""
AI = 'abstract interpretation of the LLVM IR of every operation from every class of entry state (relational linear numeric domain, symbolic array segmentation, typestate; loops by inductive generalisation) against a per-operation specification'
def R(*modules, level='proof', technique=AI, note=''): return dict(modules=modules, level=level, technique=technique, note=note)
NOTE = ('Every obligation counted as discharged holds for all values of lengths, offsets, capacities, reference counts and contents within the stated '
        'representation invariant; undecided obligations are reported in the evidence and never alarm. Trusts the clang front end, the engine and its library models.')
REG = {p: R('chk_rca', note=NOTE) for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10')}
REG['C28'] = R('chk_types', level='other', technique='compile-time witnesses decided by the C++ type checker over the public headers',
    note='Each witness is decided exactly by the front end; the property holds for the listed members and element types.')
REG['C21'] = R('chk_cstr', note=NOTE)
REG['C30'] = R('chk_cstr', 'chk_b64', note=NOTE)
REG['C20'] = R('chk_b64', note=NOTE)
REG['C19'] = R('chk_b64', note=NOTE)
TS = 'typestate analysis over the LLVM IR: every call sequence against a model of the system calls in which each call may fail, with relational tracking of paths, lengths and contents'
REG['C15'] = R('chk_atomic', technique=TS, note=NOTE)
REG['C16'] = R('chk_atomic', technique=TS, note=NOTE)
REG['C17'] = R('chk_stream', technique=TS, note=NOTE)
REG['C18'] = R('chk_stream', note=NOTE)
REG['C14'] = R('chk_wipe', note=NOTE)
REG['C29'] = R('chk_fmt', note=NOTE)
REG['C11'] = R('chk_cmp', note=NOTE)
REG['C13'] = R('chk_loop', note=NOTE)
REG['C12'] = R('chk_cmp', note=NOTE)
REG['C22'] = R('chk_hash', note=NOTE)
for p in ('C23', 'C24', 'C25', 'C26', 'C27'): REG[p] = R('chk_tcl', note=NOTE)
REG['C31'] = R('chk_text', note='Pieces of text between delimiters, operands and replacements have any length and content; the number of delimiters (at most 3), blanks in a run (at most 3), joined or repeated texts (at most 3) and characters on a stream (at most 6) is bounded. ' + NOTE)
