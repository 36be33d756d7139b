PROPS = {
 'P01': dict(tus=[dict(src='grid_addressing.cpp')], assumptions=['ranks 1 to 5; box extents up to 2^20 per dimension']),
 'P04': dict(tus=[dict(src='iteration.cpp', opts=dict(templates=('flags','guarded','visited')))]),
 'P02': dict(tus=[dict(src='sharing.cpp', opts=dict(real_abs=True))]),
 'P05': dict(tus=[dict(src='arrays.cpp', opts=dict(real_abs=True))]),
 'P06': dict(tus=[dict(src='geometry.cpp')]),
 'P07': dict(tus=[dict(src='field.cpp')]),
 'P08': dict(tus=[dict(src='exchange.cpp', opts=dict(real_abs=True, templates=('flags','guarded','lockstep','visited')))]),
 'P03': dict(tus=[dict(src='gridops.cpp', opts=dict(real_abs=True, templates=('flags','guarded','visited')))]), 
 'P09': dict(tus=[dict(src='deck.cpp', opts=dict(ctors=True, real_abs=True)), dict(src='functions.cpp', opts=dict(ctors=True, real_abs=True))]),
 'P10': dict(tus=[dict(src='updates.cpp', opts=dict(ctors=True, real_abs=True))]),
 'P11': dict(tus=[dict(src='scoping.cpp', opts=dict(ctors=True, real_abs=True))]),
 'P12': dict(tus=[dict(src='blocks.cpp', opts=dict(ctors=True, real_abs=True))]),
 'P13': dict(tus=[dict(src='diagnostics.cpp', opts=dict(ctors=True, real_abs=True))]),
 'P14': dict(tus=[dict(src='factors.cpp', opts=dict(real_abs=True)), dict(src='decomposition.cpp', defs=['SCHNEK_HAVE_MPI'], stub=True, opts=dict(ctors=True, templates=('flags','guarded')))]),
 'P15': dict(tus=[dict(src='checks.cpp', inc=['stubassert'], opts=dict(real_abs=True))]),
 'P16': dict(tus=[dict(src='fieldfill.cpp', opts=dict(ctors=True, real_abs=True))]),
 'P17': dict(tus=[dict(src='textout.cpp', opts=dict(ctors=True, real_abs=True))]),
 'P18': dict(tus=[dict(src='hdf.cpp', defs=['SCHNEK_HAVE_MPI','SCHNEK_HAVE_HDF5','SCHNEK_USE_HDF_PARALLEL'], inc=['stubhdf'], opts=dict(ctors=True, real_abs=True))]),
}
