# Writes the translation units that instantiate the library for every type of the simulation.
import sys, os
out, noext = sys.argv[1], len(sys.argv) > 2 and sys.argv[2] == 'noext'
A = 'T_W|T_SAX|T_DOM'; D = 'T_W|T_DOM'
R = '|T_ROOT'; P = '|T_PLAIN'
T = []   # (cost, name, type, flags)
def t(name, flags, ty=None, cost=1): T.append((cost, name, ty or name, flags))
for n, ty in [('bool','bool'),('char','char'),('schar','signed char'),('uchar','unsigned char'),('short','short'),('ushort','unsigned short'),('int','int'),('uint','unsigned int'),
              ('long','long'),('ulong','unsigned long'),('llong','long long'),('ullong','unsigned long long'),('float','float'),('double','double'),('null','std::nullptr_t')]:
    t(n, A + (P if n in ('bool','int','uint','double','float','short','ulong') else ''), ty, .6)
t('string', A+R+P, 'std::string', .6); t('bytes', A+R+P, 'Bytes', .6); t('timestamp', A+R+P, 'Timestamp', .6); t('ymd', A+R+P, 'Ymd', .6)
t('Small', A); t('Wide', A); t('Huge', A); t('Color', A+R); t('Suit', A+R); t('Mood', A+R+'|T_HOOK')
v = 'std::vector<%s>'
for n, ty in [('v_int','int'),('v_double','double'),('v_float','float'),('v_string','std::string'),('v_char','char'),('v_uchar','unsigned char'),('v_llong','long long'),('v_ulong','unsigned long'),('v_color','Color'),('v_suit','Suit'),('v_small','Small'),
              ('v_time','Timestamp'),('v_ymd','Ymd'),('v_bytes','Bytes'),('v_v_int','std::vector<int>'),('v_map','std::map<std::string, int>'),('v_c2','C2'),('v_u_c1','std::unique_ptr<C1>'),('v_arr','std::array<short, 2>'),('v_set','std::set<int>'),('v_null','std::nullptr_t'),('v_bool','bool'),('v_short','short'),('v_uint','unsigned int'),('v_wide','Wide'),('v_p_u','std::unique_ptr<std::string>')]:
    t(n, A+R, v % ty)
t('v_pair', A+R+P, v % 'std::pair<int, std::string>'); t('v_tuple', A+R, v % 'std::tuple<>'); t('v_variant', D+R+'|T_VARIANT', v % 'std::variant<bool, int, double, std::string, std::vector<int>, C2>')
s = 'std::set<%s>'
for n, ty in [('s_int','int'),('s_string','std::string'),('s_double','double'),('s_color','Color'),('s_huge','Huge'),('s_v','std::vector<int>'),('s_c1','C1'),('s_time','Timestamp'),('s_char','char'),('s_s','std::set<int>'),('s_bytes','Bytes'),('s_bool','bool'),('s_ushort','unsigned short'),('s_ymd','Ymd'),('s_suit','Suit')]:
    t(n, A+R, s % ty)
t('s_pair', A+R, s % 'std::pair<int, std::string>')
for n, ty, k in [('a_int','int',3),('a_string','std::string',2),('a_double','double',4),('a_v','std::vector<int>',2),('a_c2','C2',2),('a_a','std::array<int, 2>',2),('a_one','bool',1),('a_color','Color',2),('a_ymd','Ymd',2),('a_set','std::set<int>',1),('a_map','std::map<std::string, int>',1)]:
    t(n, A+R, 'std::array<%s, %d>' % (ty, k))
m = 'std::map<std::string, %s>'
for n, ty in [('m_int','int'),('m_string','std::string'),('m_v_double','std::vector<double>'),('m_c3','C3'),('m_m','std::map<std::string, int>'),('m_u','std::unique_ptr<C2>'),('m_bytes','Bytes'),('m_suit','Suit'),('m_set','std::set<std::string>'),('m_a','std::array<double, 2>'),('m_bool','bool'),('m_pair','std::pair<int, std::string>'),('m_time','Timestamp')]:
    t(n, A+R, m % ty)
u = 'std::unordered_map<std::string, %s>'
for n, ty in [('u_double','double'),('u_c2','C2'),('u_v','std::vector<std::string>'),('u_color','Color')]: t(n, A+R, u % ty)
t('pair', A+R, 'std::pair<int, std::string>'); t('tuple', A+R+P, 'std::tuple<bool, double, std::string, std::vector<int>, C1>'); t('tuple1', A+R, 'std::tuple<int>'); t('pair2', A+R, 'std::pair<std::array<int, 2>, std::map<std::string, std::pair<int, int>>>')
t('variant', D+P+'|T_VARIANT', 'std::variant<int, std::string, C2>'); t('variant2', D+R+'|T_VARIANT', 'std::variant<C1, C2, C3, std::vector<double>>')
t('v_overnum', D+R+'|T_VARIANT', v % 'OverNum'); t('overstr', D+R+'|T_VARIANT', 'OverStr'); t('m_overobj', D+R+'|T_VARIANT', m % 'OverObj')
t('p_u_int', A, 'std::unique_ptr<int>'); t('p_u_c3', A+R, 'std::unique_ptr<C3>'); t('p_u_v', A+R, 'std::unique_ptr<std::vector<int>>')
for n, f in [('C1',A+P),('C2',A+P),('C3',A+P),('CDerived',A+P),('CDerived2',A),('C12',A+P),('COpt',A+P),('CSoloOpt',A),('CPairOpt',A),('CDefault',A),('CSoloDef',A),('CNamed',A),('CNest',A+P),('CDom',D+P+'|T_VARIANT'),('Tree',A),('Chain',A),('Fragile',A)]:
    t(n, f+R, None, 3 if n in ('CNest','COpt','CNamed') else 2)
t('CTail', A+R, None, 5); t('v_dict', A+R, v % 'std::vector<std::pair<std::string, int>>'); t('m_s_bool', A+R, m % 'std::set<bool>'); t('v_v_bool', A+R, v % 'std::vector<bool>'); t('GraphW', A+R+'|T_SHARED', None, 5); t('GraphA', A+R+'|T_SHARED', None, 4); t('t_six', A+R+'|T_SHARED', 'std::tuple<' + ', '.join(['std::shared_ptr<Leaf>'] * 6) + '>', 2)
W = 'T_W'
t('CWide', A+R, None, 4); t('CSeventy', A+R, None, 5)
t('d_int', A+R, 'std::vector<std::pair<std::string, int>>'); t('d_c2', A+R, 'std::vector<std::pair<std::string, C2>>'); t('d_s_leaf', A+R+'|T_SHARED', 'std::vector<std::pair<std::string, std::shared_ptr<Leaf>>>'); t('d_watched', A+R+'|T_HOOK', 'std::vector<std::pair<std::string, Watched>>')
t('WriteOnly', W+R, None, 2); t('w_view', W+R, 'std::string_view', .4); t('w_map', W+R, 'std::map<std::string_view, std::vector<double>>'); t('w_dict', W+R, 'std::vector<std::pair<std::string_view, Color>>'); t('w_umap', W+R, 'std::unordered_map<std::string_view, int>'); t('w_ptr', W+R, 'Fixed*')
t('Env_c3', A+R, 'Envelope<C3>', 2); t('Env_map', A+R+P, 'Envelope<std::map<std::string, std::vector<C2>>>', 2); t('Env_tree', A+R, 'Envelope<Tree>', 2); t('Env_v', A+R, 'Envelope<std::vector<CDerived>>', 2); t('Env_nest', A+R, 'Envelope<CNest>', 3)
t('FragileDerived', D+R+'|T_VARIANT|T_SHARED', None, 2)
t('p_s_c2', D+R+P+'|T_SHARED', 'std::shared_ptr<C2>'); t('v_s_leaf', A+R+'|T_SHARED', 'std::vector<std::shared_ptr<Leaf>>'); t('m_s_leaf', A+R+'|T_SHARED', 'std::map<std::string, std::shared_ptr<Leaf>>'); t('v_s_node', A+R+'|T_SHARED', 'std::vector<std::shared_ptr<Node>>', 2)
t('v_s_first', A+R+'|T_SHARED', 'std::vector<std::shared_ptr<First>>', 2); t('Graph', A+R+'|T_SHARED|T_ADDR', None, 4); t('GraphX', A+R+'|T_SHARED', None, 4); t('v_s_blank', A+R+'|T_SHARED', v % 'std::shared_ptr<Blank>'); t('m_s_int', A+R+'|T_SHARED', m % 'std::shared_ptr<int>'); t('GraphT', A+R+'|T_SHARED', None, 3); t('s_s_leaf', A+R+'|T_SHARED|T_ADDR', 'std::set<std::shared_ptr<Leaf>>'); t('Env_graph', A+R+'|T_SHARED|T_ADDR', 'Envelope<Graph>', 4)
t('v_alt', D+R+'|T_SHARED|T_VARIANT', v % 'Alt', 2); t('GraphV', D+R+'|T_SHARED|T_VARIANT', None, 4)
H = '|T_HOOK'
t('Watched', A+R+H); t('v_watched', A+R+H, v % 'Watched'); t('s_watched', A+R+H, s % 'Watched'); t('m_watched', A+R+H, m % 'Watched'); t('a_watched', A+R+H, 'std::array<Watched, 2>'); t('WatchedDerived', A+R+H, None, 2); t('WatchedMix', A+R+H, None, 3)
t('DeepTree', A+R, None, 3); t('DeepChain', A+R+'|T_SHARED', None, 3); t('Spine', A+R, None, 3); t('DeepSet', A+R, None, 3); t('v_tree', A+R, v % 'DeepTree', 3); t('s_llong', A+R, s % 'long long'); t('s_ulong', A+R, s % 'unsigned long'); t('s_float', A+R, s % 'float'); t('s_schar', A+R, s % 'signed char'); t('a_llong', A+R, 'std::array<long long, 2>'); t('a_ulong', A+R, 'std::array<unsigned long, 2>'); t('a_float', A+R, 'std::array<float, 2>'); t('a_schar', A+R, 'std::array<signed char, 3>')
t('v_mood', A+R+H, v % 'Mood'); t('s_mood', A+R+H, s % 'Mood'); t('u_watched', A+R+H, u % 'Watched'); t('p_s_watched', D+R+H+'|T_SHARED', 'std::vector<std::shared_ptr<Watched>>'); t('tuple_watched', A+R+H, 'std::tuple<Watched, Mood, int>'); t('variant_watched', D+R+H+'|T_VARIANT', 'std::vector<std::variant<int, Watched>>')
t('p_u_watched', A+R+H, 'std::vector<std::unique_ptr<Watched>>')
if not noext:
    X = '|T_HOOK|T_EXT'
    t('Ext', A+X); t('ExtMix', A+R+X, None, 3); t('ExtDerived', D+R+X+'|T_VARIANT|T_SHARED', None, 4); t('v_ext', A+R+X, v % 'Ext'); t('m_v_ext', A+R+X, m % 'std::vector<Ext>')
N = int(os.environ.get('SIM_UNITS', '16'))
bins = [[0, []] for _ in range(N)]
for x in sorted(T, key=lambda x: -x[0]):
    b = min(bins, key=lambda b: b[0]); b[0] += x[0] + 0.0; b[1].append(x)
for i, b in enumerate(bins):
    s_ = '#include "%s"\nnamespace sim\n{\n    void register_types_%d()\n    {\n' % ('types.hpp' if noext else 'ext.hpp', i)
    for _, n, ty, f in b[1]: s_ += '        add<%s, %s>("%s");\n' % (ty, f, n)
    s_ += '    }\n}\n'
    open(os.path.join(out, 'types_%d.cpp' % i), 'w').write(s_)
s_ = '#include "ops.hpp"\n#include <algorithm>\nnamespace sim\n{\n' + ''.join('    void register_types_%d();\n' % i for i in range(N))
s_ += '    Registry& registry() { static Registry r; return r; }\n    void register_all()\n    {\n' + ''.join('        register_types_%d();\n' % i for i in range(N))
s_ += '        std::sort(registry().types.begin(), registry().types.end(), [](Type* a, Type* b) { return std::string_view(a->name) < std::string_view(b->name); });\n    }\n}\n'
open(os.path.join(out, 'registry.cpp'), 'w').write(s_)
print(len(T), 'types')
