// Operators of the drivers: how often a node ran, and a node that fails on demand.
#ifndef VERIF_PROBES_H
#define VERIF_PROBES_H

#include <atomic>

#include "global/operator_factory.h"
#include "runtime/operator.h"
#include "runtime/stack.h"

using namespace ts;

namespace {
std::atomic<int> g_probe_runs(0);

// verif_count(x) -> x, counting its executions
class Count : public Operator {
public:
    void init() override {}
    int infer(Stack &stack, std::vector<Tensor::Prototype> &output) override {
        output.assign(1, stack[0].proto());
        return 1;
    }
    int run(Stack &stack) override {
        ++g_probe_runs;
        m_last = stack[0];      // operators may keep state: no two threads run the same one
        stack.push(m_last.clone());
        m_last = Tensor();
        return 1;
    }
private:
    Tensor m_last;
};

// verif_fail(x) -> x, or an exception when the first element of x is negative
class Fail : public Operator {
public:
    void init() override {}
    int infer(Stack &stack, std::vector<Tensor::Prototype> &output) override {
        output.assign(1, stack[0].proto());
        return 1;
    }
    int run(Stack &stack) override {
        auto x = stack[0];
        if (x.dtype() == FLOAT32 && x.count() > 0 && x.data<float>(0) < 0) throw Exception("verif_fail");
        stack.push(x.clone());
        return 1;
    }
};
}
TS_REGISTER_OPERATOR(Count, CPU, "verif_count")
TS_REGISTER_OPERATOR(Fail, CPU, "verif_fail")

#endif
