// Explicit-state model checking of extracted strategies against the reference game.
#pragma once
#include "harness.hpp"
namespace mc {
// A variant of the game (other input format and semantics) under which the shared drivers run
struct Setup { string name; vector<string> opts; std::function<Game(const Spec &)> game; std::function<string(const Spec &)> text; std::function<vector<string>(const Spec &)> files; std::function<vector<std::pair<string, string>>(const Spec &)> helpers; };
typedef std::shared_ptr<Setup> SetupPtr;
struct Family; typedef std::shared_ptr<Family> FamilyPtr; struct Driver;
Game extended(const Game &g, int h);                  // the same game with h additional, unconstrained outputs
Game gameOf(const SetupPtr &u, const Spec &s);       // solved
string textOf(const SetupPtr &u, const Spec &s);
struct StratMode { string opt; bool coop = false; };
Driver symbolicDriver(const FamilyPtr &fam, vector<StratMode> modes, vector<int> recs, SetupPtr u = SetupPtr());
Driver permissiveDriver(const FamilyPtr &fam, vector<string> modes, SetupPtr u = SetupPtr());
Driver protocolDriver(const FamilyPtr &fam, bool random, SetupPtr u);
struct StratOpts { bool robotics = false, recovery = false, coop = false, ranks = true; };
// empty string: the automaton is a correct implementation of the specification
string checkStrategy(const Game &g, const Auto &a, const StratOpts &o, i64 *states, i64 *trans);
// "rely on the liveness assumptions as little as possible"
string checkBias(const Game &g, const Auto &a);
vector<string> preNames(const Sig &s);
string valStr(const Game &g, unsigned s);
// A strategy that may allow several outputs per input: every resolution must win.
// Nodes are (state, goal); allowed(s,j,x) lists the permitted (y, next goal).
typedef std::function<vector<std::pair<unsigned, int>>(unsigned s, int j, int x)> Choices;
string checkNondet(const Game &g, const Choices &allowed, const StratOpts &o, int nofGoals, const vector<unsigned> &start, i64 *states, i64 *trans);
// A deterministic resolution (lowest / highest permitted output) as an automaton
Auto resolve(const Game &g, const Choices &allowed, const StratOpts &o, const vector<unsigned> &start, bool highest);
// text-mode dddmp file with the header slugs writes
struct Dddmp {
    bool ok = true; string why; std::map<string, int> byName; vector<string> names; int goals = -1;
    struct N { int id; long t, e; bool term; }; std::map<long, N> nodes; long root = 0;
    void parse(const string &text);
    bool eval(u64 assignment) const;      // bit i = variable with id i
};
}
