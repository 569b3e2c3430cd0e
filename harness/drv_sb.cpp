// Storyboard driver.  job: <xosc file> \t <steps file>
// steps file: one line per frame: "<dt> [v <var> <int>]..."; first line is what happens before initialisation ("-").
// Output: one JSON line per frame {"log":[...],"vars":{..},"t":..,"quit":..,"ret":..}
#include "jobs.hpp"
#include "esminiLib.hpp"

static std::string              g_log;
static std::vector<std::string> g_vars;
static void                     add(const std::string& s)
{
    if (!g_log.empty()) g_log += ",";
    g_log += s;
}
static void on_state(const char* name, int type, int state, const char* path)
{
    add("[\"e\"," + jstr(std::string(path)) + "," + std::to_string(type) + "," + std::to_string(state) + "," + jstr(name) + "]");
}
static void on_cond(const char* name, double t)
{
    add("[\"c\"," + jstr(name) + "," + jnum(t) + "]");
}
static void emit(FILE* out, int ret)
{
    std::string v;
    for (auto& n : g_vars)
    {
        int x = 0;
        if (SE_GetVariableInt(n.c_str(), &x) == 0) v += (v.empty() ? "" : ",") + jstr(n) + ":" + std::to_string(x);
    }
    fprintf(out, "{\"log\":[%s],\"vars\":{%s},\"t\":%s,\"quit\":%d,\"ret\":%d}\n", g_log.c_str(), v.c_str(), jnum(SE_GetSimulationTime()).c_str(), SE_GetQuitFlag(), ret);
    fflush(out);
    g_log.clear();
}
static void job(const std::vector<std::string>& f, FILE* out)
{
    SE_SetOptionPersistent("disable_stdout");
    SE_RegisterStoryBoardElementStateChangeCallback(on_state);
    SE_RegisterConditionCallback(on_cond);
    // again during initialisation, once the parameters are declared and before the storyboard starts
    SE_RegisterParameterDeclarationCallback(
        [](void*)
        {
            SE_RegisterStoryBoardElementStateChangeCallback(on_state);
            SE_RegisterConditionCallback(on_cond);
        },
        nullptr);
    int r = SE_Init(f[0].c_str(), 0, 0, 0, 0);
    if (r != 0) { fprintf(out, "{\"init\":%d}\n", r); return; }
    for (int i = 0; i < SE_GetNumberOfVariables(); i++)
    {
        int t;
        g_vars.push_back(SE_GetVariableName(i, &t));
    }
    emit(out, r);
    std::ifstream in(f[1]);
    std::string   line;
    while (std::getline(in, line))
    {
        std::stringstream ss(line);
        double            dt;
        std::string       w;
        ss >> dt;
        while (ss >> w)
        {
            std::string n;
            int         v;
            ss >> n >> v;
            SE_SetVariableInt(n.c_str(), v);
        }
        r = SE_StepDT(dt);
        emit(out, r);
    }
    SE_Close();
}
int main(int argc, char** argv) { return run_jobs(argc, argv, job); }
