// Session with a Graph and the specifications defined over it.
#pragma once
#include "core_ses.hpp"
#include <tdzdd/util/Graph.hpp>
#include <tdzdd/util/IntSubset.hpp>
typedef tdzdd::DdStructure<2> DD2;
struct GSes;
typedef void (*GFn)(GSes&, Args const&, Json&);
std::map<std::string, GFn>& gfeats();
struct GReg { GReg(char const* k, GFn f) { gfeats()[k] = f; } };
struct GSes {
    tdzdd::Graph g;
    Ses<2> s;                       // for dump()
    // how: b build, p parallel build, s subset of the power set, t parallel subset
    template<typename S> void out(Json& j, S const& spec, int n, std::string const& how) {
        DD2* d;
        if (how == "b") d = new DD2(spec);
        else if (how == "p") d = new DD2(spec, true);
        else { d = new DD2(n, how == "t"); d->zddSubset(spec); }
        std::unique_ptr<DD2> own(d);
        j.raw("d", s.dump(*d));
        DD2 r(*d);
        r.zddReduce();
        j.raw("c", jdigits(r.zddCardinality()));
    }
};
