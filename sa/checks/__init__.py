REGISTRY = {}


def _reg(mod, **kw):
    for k, v in kw.items():
        REGISTRY[k] = (mod, v)


_reg(
    "serial",
    C01="value-flow analysis (abstract interpretation with gated joins): abstract XML tree of plan views against the attribute tables",
    C02="value-flow analysis: abstract XML tree of lane sections, for all lane counts up to a cut-off derived from the source's literals",
    C03="value-flow analysis: abstract XML tree of road marks, gated over all given/omitted argument combinations",
    C04="value-flow analysis: abstract link elements and link queries for every order of adding links",
    C05="value-flow analysis: abstract XML tree of junctions, connections and lane links",
    C06="value-flow analysis: abstract attribute tables of signals and objects, gated over all given/omitted combinations",
    C07="value-flow analysis: abstract repeat elements, gated over all given/omitted combinations",
    C08="value-flow analysis: abstract XML tree of the whole document",
)
_reg("enums", C09="keyword tables: abstract evaluation of the conversion of every enumeration member, at the converter and at every attribute that writes it")
_reg("serial", C10="value-flow analysis: no attribute of any abstract XML tree may be the text of None or not text")

NOTES = {
    "*": "Sound for the analysed contexts under the stated models: every input value, every given/omitted combination and every branch is covered symbolically; container lengths up to a cut-off derived from the integer literals of the source. "
    "Trusts the models of Python built-ins, ElementTree, numpy and scipy in sa/models.py and treats arithmetic as real arithmetic.",
}
_reg(
    "heap",
    C11="effect analysis: abstract heap before and after every query compared cell by cell; abstract documents with and without queries in between compared",
    C24="effect analysis: abstract heap of a geometry before and after each query, and answers after every short call history compared with those of a fresh geometry",
    C12="effect analysis: abstract heap reachable from one model compared before and after every operation on another; abstract documents with and without the other model compared",
)
_reg(
    "geom",
    C22="symbolic normal forms: abstract end pose of every geometry kind against its closed form (ring, angle-addition and Fresnel normal form)",
    C23="symbolic normal forms: abstract composition of end and start pose against the identity",
)
_reg(
    "geom",
    C25="value-flow analysis with uninterpreted geometries: abstract records of a plan view against the chain of start poses, for every geometry kind",
    C26="value-flow analysis with uninterpreted geometries: abstract records of a plan view positioned from its end; forward and backward chains compared in normal form",
    C34="symbolic normal forms: abstract curvatures and turning angles of the generated pieces against the requested ones",
)
_reg(
    "net",
    C27="value-flow analysis with uninterpreted geometries: abstract poses of linked roads at every combination of contact points, with symbolic lane offsets",
    C28="value-flow analysis with uninterpreted geometries over every tree of links up to a cut-off and orders of adding; repeated loop states are reported as non-termination",
)
_reg(
    "net",
    C29="value-flow analysis: abstract documents of networks whose junction ids equal road ids compared with those whose junction id is unique",
    C30="effect analysis: abstract documents after adjusting once, repeatedly, and between additions compared, for every tree of links up to a cut-off",
)
_reg(
    "lanes",
    C31="value-flow analysis: abstract lane links of every pair, chain and ring of roads up to a cut-off against the reciprocal links required",
    C32="value-flow analysis: abstract lane links of connecting roads at every contact point with unbounded lane offsets against the required side, section and shift",
    C36="value-flow analysis: abstract junction connections compared with the abstract lane links of the connecting roads",
)
_reg(
    "gens",
    C33="value-flow analysis: abstract cross-section and document of generated roads against the request and against a road built by hand",
    C35="value-flow analysis: abstract connecting roads generated for 2-5 roads against the layout required for every pair",
    C42="symbolic normal forms: abstract pieces, curvatures and turning of generated connecting roads, for symbolic directions, radius and parts",
    C37="value-flow and effect analysis: abstract roadside objects against the layout required; prototype's abstract heap before and after compared",
)
_reg(
    "io",
    C13="effect analysis: files opened, written and closed by the writers, with abstract names, encodings and documents",
    C38="effect and taint analysis: files written and processes started by the viewer launch; path and density must reach single arguments unmixed",
)
_reg(
    "hist",
    C14="typestate: every history of additions up to a bound with unbounded ids given or omitted; ids of the abstract documents pairwise compared",
    C15="typestate: every interleaving of lane additions up to a bound; ids in the abstract documents against the order of adding",
    C16="typestate: every history of connections up to a bound with unbounded ids given or omitted",
    C17="typestate: every use of lane linkers up to a bound; abstract links against the registered pairs",
    C18="typestate: every history of roads up to a bound with unbounded ids; abstract documents against the accepted roads",
    C19="decision tables: every subset of optional arguments with unbounded values; outcome on every abstract path against the documented one",
    C20="typestate and effect analysis: every history of calls on a road up to a bound; outcome against the documented one, abstract heap unchanged by refused calls",
)
_reg("names", C21="dataflow over the syntax trees: every constructed error flows to a raise, no handler drops one, every name resolves and is definitely assigned before it is read")
_reg("examples", C39="name and call resolution over the syntax trees of the shipped examples, and abstract interpretation of every statement of theirs")
