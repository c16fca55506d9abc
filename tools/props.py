def P(srcs, libs=('common',), cfg='opt', defs=()):
    return dict(srcs=list(srcs), libs=list(libs), cfg=cfg, defs=tuple(defs))

PROPS = {
    'C01': dict(parts=[P(['p_bspfile.cc'])]),
    'C02': dict(parts=[P(['p_convert.cc'])]),
    'C03': dict(parts=[P(['p_badbsp.cc'], cfg='asan')]),
    'C04': dict(parts=[P(['p_visrow.cc'])]),
    'C05': dict(parts=[P(['p_query.cc'])]),
    'C06': dict(parts=[P(['p_lmext.cc'])]),
    'C10': dict(parts=[P(['p_parser.cc'])]),
    'C07': dict(parts=[P(['p_entdata.cc'])]),
    'C08': dict(parts=[P(['p_mapfile.cc'])]),
    'C09': dict(parts=[P(['p_texconv.cc'])]),
    'C11': dict(parts=[P(['p_settings.cc'])]),
    'C12': dict(parts=[P(['p_archive.cc'])]),
    'C13': dict(parts=[P(['p_image.cc'])]),
    'C14': dict(parts=[P(['p_assets.cc'], cfg='asan')]),
    'C19': dict(parts=[P(['p_prt.cc'], cfg='asan')]),
    'C20': dict(parts=[P(['p_vis.cc'], libs=('common','vis'))]),
    'C21': dict(parts=[P(['p_visrun.cc'], libs=('common','vis'))]),
    'C22': dict(parts=[P(['p_vissound.cc'], libs=('common','vis'))]),
    'C15': dict(parts=[P(['p_winding.cc'])]),
    'C32': dict(parts=[P(['p_bsputil.cc'], libs=('bsputil','qbsp','common'))]),
    'C33': dict(parts=[P(['p_maputil.cc'], libs=('maputil','common'))]),
    'C34': dict(parts=[P(['p_math.cc'])]),
    'C35': dict(parts=[P(['p_low.cc'], libs=('common',), cfg='asan')]),
    'C16': dict(parts=[P(['p_contents.cc'], libs=('common',))]),
    'C17': dict(parts=[P(['p_bspinfo.cc'], libs=('common',))]),
    'C18': dict(parts=[P(['p_decomp.cc'], libs=('common',))]),
    'C23': dict(parts=[P(['p_qcontents.cc'], libs=('qbsp','common'))]),
    'C24': dict(parts=[P(['p_qfaces.cc'], libs=("qbsp","common"))]),
    'C25': dict(parts=[P(['p_qportals.cc'], libs=('qbsp','common'))]),
    'C26': dict(parts=[P(['p_qleak.cc'], libs=('qbsp','common'))]),
    'C27': dict(parts=[P(['p_ltstore.cc'], libs=('light','qbsp','common'))]),
    'C30': dict(parts=[P(['p_ltgrid.cc'], libs=('light','qbsp','common'))]),
    'C29': dict(parts=[P(['p_ltphong.cc'], libs=('light','qbsp','common'))]),
    'C31': dict(parts=[P(['p_ltbounce.cc'], libs=('light','qbsp','vis','common'))]),
    'C36': dict(parts=[P(['p_qkeys.cc'], libs=('qbsp','common'))]),
    'C37': dict(parts=[P(['p_qext.cc'], libs=('qbsp','common'))]),
    'C28': dict(parts=[P(['p_ltdirect.cc'], libs=('light','qbsp','common'))]),
}
