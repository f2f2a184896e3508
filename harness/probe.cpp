// Probe: runs the real groot library on case directories and dumps what it observed.
// usage: probe <timeout seconds> <file with one case directory per line>
// Every case runs in a forked child (so that a crash, exit() or hang of the code under test is an observation, not the
// end of the probe). The child reads <dir>/metadata.json, the zone files and <dir>/probe.json and writes
// <dir>/probe_out.json; the parent prints "<dir> exit <code>" / "<dir> signal <n>" / "<dir> timeout".
#include "driver.h"
#include "ec-task.h"
#include "structural-task.h"
#include <csignal>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

class DriverTest
{
  public:
    static label::Graph &LabelGraph(Driver &d) { return d.label_graph_; }
    static Context &GetContext(Driver &d) { return d.context_; }
    static Job &CurrentJob(Driver &d) { return d.current_job_; }
};

static json Name(const vector<NodeLabel> &name)
{
    json j = json::array();
    for (auto &l : name)
        j.push_back(l.get());
    return j;
}

static vector<NodeLabel> ToName(const json &j)
{
    vector<NodeLabel> n;
    for (auto &l : j)
        n.push_back(NodeLabel(l.get<string>()));
    return n;
}

static json Rec(const ResourceRecord &r)
{
    return json::array({Name(r.get_name()), static_cast<int>(r.get_type()), r.get_ttl(), r.get_rdata(), r.get_class()});
}

static const char *TagName(ReturnTag t)
{
    switch (t) {
    case ReturnTag::ANS: return "ANS";
    case ReturnTag::REWRITE: return "REWRITE";
    case ReturnTag::REF: return "REF";
    case ReturnTag::NX: return "NX";
    case ReturnTag::REFUSED: return "REFUSED";
    case ReturnTag::NSNOTFOUND: return "NSNOTFOUND";
    case ReturnTag::YX: return "YX";
    }
    return "?";
}

static json Answers(const boost::optional<vector<zone::LookUpAnswer>> &a)
{
    if (!a)
        return nullptr;
    json out = json::array();
    for (auto &x : a.get()) {
        json rrs = json::array();
        for (auto &r : std::get<2>(x))
            rrs.push_back(Rec(r));
        out.push_back(json::array({TagName(std::get<0>(x)), std::get<1>(x).to_ulong(), rrs}));
    }
    return out;
}

static EC ToEC(const json &j)
{
    EC q;
    q.name = ToName(j.at("name"));
    q.rrTypes = std::bitset<RRType::N>(j.at("types").get<unsigned long>());
    if (j.at("excl").get<bool>())
        q.excluded = boost::make_optional(std::vector<NodeLabel>{});
    q.nonExistent = j.value("nonex", false);
    return q;
}

static json FromEC(const EC &q)
{
    return json::array({Name(q.name), static_cast<bool>(q.excluded), q.rrTypes.to_ulong(), q.nonExistent});
}

static void DumpZone(const zone::Graph &z, zone::Graph::VertexDescriptor v, vector<NodeLabel> &name, json &out)
{
    json rrs = json::array();
    for (auto &r : z[v].rrs)
        rrs.push_back(Rec(r));
    out.push_back(json::array({Name(name), rrs}));
    for (auto c : boost::make_iterator_range(adjacent_vertices(v, z))) {
        name.push_back(z[c].name);
        DumpZone(z, c, name, out);
        name.pop_back();
    }
}

static void RunCase()
{
    json in, meta, out;
    {
        std::ifstream f("probe.json");
        f >> in;
    }
    {
        std::ifstream f("metadata.json");
        f >> meta;
    }
    Driver d;
    out["rr_count"] = d.SetContext(meta, ".", in.value("lint", false));
    Context &ctx = DriverTest::GetContext(d);
    label::Graph &lg = DriverTest::LabelGraph(d);
    out["label_graph"] = json::array({num_vertices(lg), num_edges(lg)});
    out["counts"] = json::object();
    for (auto &[k, v] : ctx.type_to_rr_count)
        out["counts"][k] = v;
    if (in.value("zones", false)) {
        out["zones"] = json::object();
        for (auto &[id, z] : ctx.zoneId_to_zone) {
            json nodes = json::array();
            vector<NodeLabel> name;
            DumpZone(z, 0, name, nodes);
            out["zones"][to_string(id)] = {
                {"origin", Name(z.get_origin())}, {"ns", ctx.zoneId_nameserver_map.at(id).get()}, {"nodes", nodes}};
        }
    }
    if (in.count("lookups")) {
        out["lookups"] = json::array();
        for (auto &l : in["lookups"]) {
            auto it = ctx.zoneId_to_zone.find(l.at("zone").get<int>());
            if (it == ctx.zoneId_to_zone.end()) {
                out["lookups"].push_back(nullptr);
                continue;
            }
            bool complete = false;
            out["lookups"].push_back(Answers(it->second.QueryLookUpAtZone(ToEC(l), complete)));
        }
    }
    if (in.count("graphs")) {
        out["graphs"] = json::array();
        for (auto &g : in["graphs"]) {
            interpretation::Graph ig(ToEC(g), ctx);
            json vs = json::array(), es = json::array();
            for (auto v : boost::make_iterator_range(vertices(ig)))
                vs.push_back(json::array({ig[v].ns, FromEC(ig[v].query), Answers(ig[v].answer)}));
            for (auto e : boost::make_iterator_range(edges(ig))) {
                auto &side = ig[e].intermediate_query;
                es.push_back(json::array({source(e, ig), target(e, ig), side ? side.get() : -1}));
            }
            out["graphs"].push_back({{"v", vs}, {"e", es}});
        }
    }
    if (in.count("jobs")) {
        out["jobs"] = json::array();
        for (auto &jb : in["jobs"]) {
            d.SetJob(static_cast<const json &>(jb));
            Job &job = DriverTest::CurrentJob(d);
            lg.GenerateECs(job, ctx);
            json ecs = json::array(), st = json::array();
            unique_ptr<Task> item;
            while (job.ec_queue.try_dequeue(item)) {
                if (auto e = dynamic_cast<ECTask *>(item.get()))
                    ecs.push_back(FromEC(e->ec_));
                else if (auto s = dynamic_cast<StructuralTask *>(item.get()))
                    st.push_back(s->domain_name_);
            }
            out["jobs"].push_back({{"ecs", ecs}, {"structural", st}});
        }
    }
    std::ofstream f("probe_out.json");
    f << out.dump(-1, ' ', true, json::error_handler_t::replace);
    f.close();
    if (!f)
        _exit(77);
}

int main(int argc, char **argv)
{
    if (argc != 3)
        return 2;
    int timeout = atoi(argv[1]);
    std::ifstream list(argv[2]);
    string dir;
    while (getline(list, dir)) {
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            if (chdir(dir.c_str()) != 0)
                _exit(78);
            int fd = open("probe_log.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(fd, 1);
            dup2(fd, 2);
            try {
                RunCase();
            } catch (std::exception &e) {
                std::cerr << "Exception:- " << e.what() << std::endl;
                _exit(1);
            }
            exit(0);
        }
        int st = 0;
        bool done = false;
        for (long waited = 0; waited < timeout * 1000000L;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) {
                done = true;
                break;
            }
            usleep(waited < 20000 ? 500 : 5000);
            waited += waited < 20000 ? 500 : 5000;
        }
        if (!done) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            printf("%s timeout\n", dir.c_str());
        } else if (WIFSIGNALED(st)) {
            printf("%s signal %d\n", dir.c_str(), WTERMSIG(st));
        } else {
            printf("%s exit %d\n", dir.c_str(), WEXITSTATUS(st));
        }
    }
    return 0;
}
