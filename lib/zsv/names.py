"""Schemas with hostile names: one shape which uses every construct, every identifier of it a slot."""
import re

CPP = """alignas alignof and and_eq asm auto bitand bitor bool break case catch char char16_t char32_t class compl const
constexpr const_cast continue decltype default delete do double dynamic_cast else enum explicit export extern false float
for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected
public register reinterpret_cast return short signed sizeof static static_assert static_cast struct switch template this
thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq""".split()
JAVA = """abstract assert boolean break byte case catch char class const continue default do double else enum extends final
finally float for goto if implements import instanceof int interface long native new null package private protected public
return short static strictfp super switch synchronized this throw throws transient try var void volatile while record yield sealed permits""".split()
PY = """False None True and as assert async await break class continue def del elif else except finally for from global if
import in is lambda nonlocal not or pass raise return try while with yield match case type print exec __init__ __class__ __peg_parser__""".split()
# identifiers the generated code uses itself
LOCAL = """self cls out writer reader in allocator other value result size length offset index bitPosition bit_position bitposition
endBitPosition end_bit_position startBitPosition context packingContext hash hashCode hash_code HashCode getClass toString equals clone
wait notify notifyAll finalize read write readPacked write_packed initialize initializeOffsets initialize_offsets bitSizeOf bitsizeof
bit_size_of choiceTag choice_tag typeInfo type_info reflectable isPacked parsingInfo name item cause error data buffer param row rows
column connection statement db dbConnection parameterProvider validationObserver service client method methodName request response
callback publish subscribe topic pubsub numBits array element elements rawArray array_ get set reset is_set isSet key keys values items
Values Value getValue fromValue valueOf ordinal compareTo name_ field_ type params args kwargs len list dict tuple str int float
bool object property staticmethod classmethod isinstance range iter next id min max abs sum zip map filter bytes
String Object List ArrayList Integer Long BigInteger Override Exception IOException BitStreamReader BitStreamWriter BitBuffer
Builder Row Reader Writer ParameterProvider IParameterProvider Storage Type Enum EnumMeta Service Client Pubsub Optional Array
std stdlib string vector uint8_t int32_t size_t array_type allocator_type NoInit NoInit_ constexpr_ Any any api typing apsw
ZERO ONE NONE              main java lang util io python cpp test
x X y Y a A b B i j k e E T t ObjectChoice m_x m_value getX setX isXSet resetX _x x_ __x x__ underscore_ CamelCase camelCase camelcase snake_case UPPER_CASE
utility memory cstdint functional enum_ struct_ IReflectable TypeInfo CaseInfo MemberInfo MemberAttribute TypeAttribute
serviceFullName SERVICE_FULL_NAME METHOD_NAMES callMethod methodNames TABLE_NAME DATABASE_NAME tableName fileName open close createSchema
deleteSchema readCallback iterator hasNext checkOffsets Wraps view make decltype_ exact_type swap begin end data_ c_str""".split()

SHAPE = """package %(pkg1)s.%(pkg2)s;
import %(pkg1)s.%(pkg3)s.*;
const uint8 %(Const1)s = 3;
const string %(Const2)s = "text";
const bool %(Const3)s = %(Const1)s > 2;
subtype uint16 %(Sub1)s;
enum uint8 %(Enum1)s { %(item1)s, %(item2)s = 7, %(item3)s };
bitmask uint16 %(Mask1)s { %(bit1)s, %(bit2)s, %(bit3)s };
struct %(Plain1)s { %(Sub1)s %(pf1)s; string %(pf2)s = %(Const2)s; %(Enum1)s %(pf3)s = %(Enum1)s.%(item2)s; };
subtype %(Plain1)s %(Sub2)s;
struct %(Param1)s(uint8 %(par1)s, %(Plain1)s %(par2)s, %(Enum1)s %(par3)s)
{
    uint8 %(f1)s : %(f1)s < 200;
    optional uint32 %(f2)s;
    string %(f3)s if %(f1)s > 0 && %(par3)s == %(Enum1)s.%(item1)s;
    uint16 %(f4)s[%(par1)s];
    packed %(Sub2)s %(f5)s[];
    bit<%(f1)s & 7 | 1> %(f6)s;
    extern %(f7)s;
    bytes %(f8)s;
    %(Mask1)s %(f9)s : %(f9)s != %(Mask1)s.%(bit1)s;
    bool %(f10)s = %(Const3)s;
    float32 %(f11)s;
    function uint32 %(fun1)s() { return %(f1)s + %(par1)s; }
    function bool %(fun2)s() { return lengthof(%(f5)s) > %(fun1)s() || %(par2)s.%(pf1)s == 1; }
};
struct %(Off1)s
{
    uint32 %(off1)s; uint32 %(off2)s[2];
%(off1)s:
    %(Plain1)s %(of1)s;
align(8):
    uint16 %(of6)s;
%(off2)s[@index]:
    uint8 %(of2)s[2];
    %(Param1)s(%(of2)s[0], %(of1)s, %(of1)s.%(pf3)s) %(of3)s;
    extend varuint %(of4)s;
    extend %(Plain1)s %(of5)s;
};
choice %(Choice1)s(%(Enum1)s %(cp1)s) on %(cp1)s
{
    case %(item1)s: uint8 %(cf1)s;
    case %(item2)s: %(Plain1)s %(cf2)s;
    default: string %(cf3)s[];
    function uint8 %(cfun1)s() { return 5; }
};
union %(Union1)s(uint8 %(up1)s)
{
    uint8 %(uf1)s : %(uf1)s > %(up1)s;
    %(Plain1)s %(uf2)s;
    int32 %(uf3)s[%(up1)s];
    function uint8 %(ufun1)s() { return %(up1)s; }
};
struct %(Template1)s<%(targ1)s>
{
    %(targ1)s %(tf1)s;
    packed %(targ1)s %(tf2)s[];
};
instantiate %(Template1)s<uint32> %(Inst1)s;
struct %(Top1)s
{
    %(Inst1)s %(tof1)s;
    %(Choice1)s(%(Enum1)s.%(item3)s) %(tof2)s;
    %(Union1)s(%(Const1)s) %(tof3)s;
    %(Template1)s<string> %(tof4)s;
    %(Imp1)s %(tof5)s;
    %(pkg1)s.%(pkg3)s.%(Imp2)s %(tof6)s;
};
sql_table %(Table1)s
{
    uint32 %(col1)s sql "PRIMARY KEY NOT NULL";
    %(Plain1)s %(col2)s;
    %(Choice1)s(explicit %(exp1)s) %(col3)s;
    %(Union1)s(explicit %(exp2)s) %(col4)s;
    string %(col5)s;
    %(Enum1)s %(col6)s;
};
sql_database %(Db1)s { %(Table1)s %(dbt1)s; %(Table1)s %(dbt2)s; };
service %(Service1)s { %(Plain1)s %(met1)s(%(Top1)s); bytes %(met2)s(%(Plain1)s); };
pubsub %(Pubsub1)s { publish topic("a/b") %(Plain1)s %(msg1)s; subscribe topic("c") %(Top1)s %(msg2)s; topic("d") bytes %(msg3)s; };
"""
IMPORTED = """package %(pkg1)s.%(pkg3)s;
struct %(Imp1)s { uint8 %(if1)s; };
enum int8 %(Imp2)s { %(ii1)s = -1, %(ii2)s };
"""
SLOTS = sorted(set(re.findall(r"%\((\w+)\)s", SHAPE + IMPORTED)))


def plain():
    out = {}
    for s in SLOTS:
        m = re.match(r"([A-Za-z]+)(\d+)", s)
        out[s] = {"pkg1": "root_pkg", "pkg2": "sub_pkg", "pkg3": "imp_pkg"}.get(s) or ("%sX%s" if s[0].isupper() else "%s_%s") % m.groups()
    return out


def files(names):
    p2 = names["pkg1"] + "/" + names["pkg2"] + ".zs"
    p3 = names["pkg1"] + "/" + names["pkg3"] + ".zs"
    return p2, {p2: SHAPE % names, p3: IMPORTED % names}


def variant(t, name):
    """another name, near to the given one"""
    k = t.raw(8)
    snake = re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", name).lower()
    camel = re.sub(r"_(\w)", lambda m: m.group(1).upper(), name)
    return (name.lower(), name.upper(), name[:1].upper() + name[1:], name[:1].lower() + name[1:], snake, camel, name + "_", snake.upper())[k]


def hostile(t, names, k):
    """k slots get hostile names; list of (slot, name)"""
    out = []
    for _ in range(k):
        s = t.pick(SLOTS)
        w = t.raw(12)
        if w == 0:
            n = t.pick(CPP)
        elif w == 1:
            n = t.pick(JAVA)
        elif w == 2:
            n = t.pick(PY)
        elif w < 8:
            n = t.pick(LOCAL)
        else:
            n = variant(t, names[t.pick(SLOTS)] if t.chance(60) else t.pick(LOCAL))
        if w < 8 and t.chance(30):
            n = variant(t, n)
        if re.match(r"[A-Za-z_]\w*$", n) and n != names[s]:
            out.append((s, n))
    return out
