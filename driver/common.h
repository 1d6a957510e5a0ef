// Shared helpers of the conformance driver.
#ifndef DRIVER_COMMON_H
#define DRIVER_COMMON_H
#include <fuzzylite/Headers.h>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

typedef std::vector<std::string> Args;

struct World {
    std::map<int, fl::Engine*> slots;
    fl::Engine* at(int s) {
        std::map<int, fl::Engine*>::iterator it = slots.find(s);
        if (it == slots.end() || !it->second) throw std::logic_error("no engine in slot");
        return it->second;
    }
    void put(int s, fl::Engine* e) {
        if (slots.count(s)) delete slots[s];
        slots[s] = e;
    }
    void clear() {
        for (std::map<int, fl::Engine*>::iterator it = slots.begin(); it != slots.end(); ++it) delete it->second;
        slots.clear();
    }
};
extern World world;

typedef std::function<std::string(const Args&)> Handler;
void reg(const std::string& name, Handler h);
void registerEngine();
void registerText();
void registerParts();
void registerDataset();
void registerValues();
void registerCollections();
void registerUtilities();
void registerConsole();
void registerAssemble();

// "n/d", integer, decimal, nan, inf, -inf
double num(const std::string& s);
bool flag(const std::string& s);
int integer(const std::string& s);
// best rational with small parts
std::string rat(double x);
// distance between a number and what rat() writes for it
double ratError(double x);
std::string jstr(const std::string& s);
inline std::string jbool(bool b) { return b ? "true" : "false"; }

fl::TNorm* mkTNorm(const std::string& k);
fl::SNorm* mkSNorm(const std::string& k);
fl::Defuzzifier* mkDefuzz(const std::string& spec);
fl::Activation* mkAct(const std::string& spec);
fl::Term* mkTerm(const std::string& name, const std::string& cls, const std::string& height,
                 const Args& a, std::size_t from, fl::Engine* e);
std::string observeEngine(fl::Engine* e, bool impl);
std::vector<std::string> words(const std::string& s);
#endif
