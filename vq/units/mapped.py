from trans import *
SOURCES = ['src/files.cpp']
CONTRACTS = ['mapped.vqc']
SPECS = ['files.rs', 'lines.rs', 'mapped.rs']


class Hooks:
    def call(self, ft, n, rd, args):
        if rd['name'] == 'upper_bound' and len(args) == 3:
            v = ft.ex(args[0])
            x = ft.ex(args[1])
            # the comparator must be the one whose contract upper_bound_sections relies on
            if norm_type(qtype(strip(args[2]))).split('::')[-1] != 'mapped_section_pos_cmp' or v.ty.k != 'vec':
                return None
            r = V('upper_bound_sections(&%s, %s)' % (v.code, x.code), T('vit', v.ty.a))
            r.container = v
            return r
        return None

    def compare(self, ft, n, op, a, b):
        # file_ptr == file_ptr (only inside assert): equal pointers have equal text
        if a.ty.k == 'rec' and b.ty.k == 'rec' and a.ty.a == b.ty.a == 'file' and op == '==':
            return V('slice_eq(%s.source_.as_slice(), %s.source_.as_slice())' % (a.code, b.code), BOOL)
        return None


def setup(m, lib):
    m.records['file_position'] = RecModel(m, 'file_position', copy=True)
    m.records['file'] = RecModel(m, 'file', drop=('path', 'is_code_snippets', 'qbk_version', 'ref_count'))
    m.records['mapped_file_section'] = RecModel(m, 'mapped_file_section', copy=True)
    m.records['mapped_section_pos_cmp'] = RecModel(m, 'mapped_section_pos_cmp', copy=True)
    m.records['mapped_file'] = RecModel(m, 'mapped_file', bases=['file'], drop=('path', 'is_code_snippets', 'qbk_version', 'ref_count'))
    m.records['mapped_file_builder_data'] = RecModel(m, 'mapped_file_builder_data')
    m.records['mapped_file_builder'] = RecModel(m, 'mapped_file_builder', types={'data': T('rec', 'mapped_file_builder_data')})
    lib.types['mapped_file_builder::pos_type'] = U64
    lib.types['pos_type'] = U64
    lib.hooks.append(Hooks())
