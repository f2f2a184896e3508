From 7a29112e11b4a488a0b2760e5ff8750801c6014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 01/38] fix: accept zone files of the root zone

A zone whose origin is the root has an origin without labels, which was taken for
'no SOA seen yet': every root zone file ended the run, the shipped benchmark included.
Remember the SOA itself, and let only the first one fix the origin.
---
 src/zone-graph.cpp | 8 +++++---
 src/zone-graph.h   | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index 9936d81..b2d228e 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -125,7 +125,9 @@ tuple<zone::RRAddCode, boost::optional<zone::Graph::VertexDescriptor>> zone::Gra
         }
     }
     (*this)[node].rrs.push_back(record);
-    if (record.get_type() == RRType::SOA) {
+    // The first SOA record fixes the origin (which has no labels for the root zone).
+    if (record.get_type() == RRType::SOA && !has_soa_) {
+        has_soa_ = true;
         origin_ = record.get_name();
     }
     return {RRAddCode::SUCCESS, node};
@@ -138,9 +140,9 @@ void zone::Graph::CheckGlueRecordsPresence(const Nameserver &ns)
 
 bool zone::Graph::CheckZoneMembership(const ResourceRecord &record, const string &filename)
 {
-    if (record.get_type() == RRType::SOA && origin_.size() == 0) {
+    if (record.get_type() == RRType::SOA && !has_soa_) {
         return true;
-    } else if (origin_.size() == 0) {
+    } else if (!has_soa_) {
         Logger->critical(fmt::format(
             "zone-graph.cpp (CheckZoneMembership) - Non SOA record is written before a SOA record in the zone file {}",
             filename));
diff --git a/src/zone-graph.h b/src/zone-graph.h
index 289f0b1..029b15e 100644
--- a/src/zone-graph.h
+++ b/src/zone-graph.h
@@ -47,6 +47,7 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::dire
 
     int id_;
     vector<NodeLabel> origin_;
+    bool has_soa_ = false;
     zone::Graph::VertexDescriptor root_ = 0;
     std::unordered_map<zone::Graph::VertexDescriptor, LabelToVertex> vertex_to_child_map_;
 
-- 
2.43.0


From 96481d9ce3864ced183e2e3bf179b8275c2f1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 02/38] fix: do not take an owner name such as mx or ns for the
 record type

The search for the type field started at the owner field, so 'mx IN A 192.0.2.1'
was read as an MX record of the previous owner.
---
 src/zone-file-parser.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index e6a6724..d0d215e 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -336,16 +336,15 @@ struct Parser {
                                   "AAAA", "SRV", "DNAME", "RRSIG", "NSEC", "DS",  "SPF"};
 
         int index = -1;
-        int i = 0;
-        for (auto &field : current_record) {
-            string f(field);
+        // The first field is always the owner name (empty when inherited), even if it looks like a type.
+        for (int i = 1; i < current_record.size(); i++) {
+            string f(current_record[i]);
             if (f.length() < 6) {
                 boost::to_upper(f);
                 if (std::find(std::begin(types), std::end(types), f) != std::end(types)) {
                     return i;
                 }
             }
-            i++;
         }
         return index;
     }
-- 
2.43.0


From ff55a51679a0956aca655f5b768c4783b0367328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 03/38] fix: read the last record of a zone file without final
 newline

---
 src/zone-file-parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index d0d215e..a6b2205 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -384,6 +384,10 @@ int Driver::ParseZoneFileAndExtendGraphs(string file, string nameserver, string
 
     // get the zone file input as a string.
     string str(ReadFromFile(file.c_str()));
+    // A record is complete at the end of its line, the last line may lack the newline.
+    if (!str.empty() && str.back() != '\n') {
+        str.push_back('\n');
+    }
     char const *first = str.c_str();
     char const *last = &first[str.size()];
 
-- 
2.43.0


From d9e03292774abeef0bdc55f4e4d4a5e05ea39479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 04/38] fix: give Task a virtual destructor

Tasks are deleted through unique_ptr<Task>: without it the members of the derived
task are never destroyed and the deletion is undefined behaviour.
---
 src/task.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task.h b/src/task.h
index 2931558..4553467 100644
--- a/src/task.h
+++ b/src/task.h
@@ -7,6 +7,7 @@
 class Task
 {
   public:
+    virtual ~Task() = default;
     virtual string PrintTaskType() = 0;
     virtual void Process(const Context &, vector<boost::any> &) = 0;
 };
-- 
2.43.0


From a05210dcfb2364f5bfb11e361755da523bda2a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 05/38] fix: do not carry the structural delegation check over
 to later jobs

---
 src/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index fe4902f..e3ab206 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -218,6 +218,7 @@ void Driver::SetJob(const json &user_job)
     current_job_.stats.interpretation_vertices.clear();
     current_job_.user_input_domain = d;
     current_job_.check_subdomains = user_job["SubDomain"];
+    current_job_.check_structural_delegations = false;
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
@@ -381,6 +382,7 @@ void Driver::SetJob(string &domain_name)
     current_job_.stats.interpretation_vertices.clear();
     current_job_.user_input_domain = domain_name;
     current_job_.check_subdomains = true;
+    current_job_.check_structural_delegations = false;
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
-- 
2.43.0


From e7095225e19b37069f712bb8302716010585d6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 06/38] fix: data race between the query class producers of one
 job

With several closest enclosers (DNAME targets) the producer threads shared the
loop-detection length stored in the label graph vertices and could cut each
other's traversal short, losing query classes.
---
 src/label-graph.cpp | 20 ++++++++++++--------
 src/label-graph.h   |  9 ++++++++-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 1a1e4de..b2bf360 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -459,13 +459,14 @@ void label::Graph::SubDomainECGeneration(
     bool skipLabel,
     Job &current_job,
     const Context &context,
-    bool check_structural_delegations)
+    bool check_structural_delegations,
+    std::vector<int16_t> &visited_len)
 {
     size_t len = 0;
     for (NodeLabel &l : parent_domain_name) {
         len += l.get().length() + 1;
     }
-    if (len >= kMaxDomainLength || (len == (*this)[start].len && skipLabel)) {
+    if (len >= kMaxDomainLength || (len == visited_len[start] && skipLabel)) {
         //return if length exceedes or DNAME loop detected 
         //mostly likely turns out as cyclic zone dependecy so no need to report here
         return;
@@ -482,7 +483,7 @@ void label::Graph::SubDomainECGeneration(
         // DNAME can not occur at the root.
         name.push_back(node_labels);
     }
-    int16_t beforeLen = (*this)[start].len;
+    int16_t beforeLen = visited_len[start];
     size_t nodeLen = 0;
     for (NodeLabel &l : name) {
         nodeLen += l.get().length() + 1;
@@ -490,7 +491,7 @@ void label::Graph::SubDomainECGeneration(
     if (nodeLen >= kMaxDomainLength) {
         return;
     }
-    (*this)[start].len = static_cast<int16_t>(nodeLen);
+    visited_len[start] = static_cast<int16_t>(nodeLen);
     std::vector<NodeLabel> children_labels;
     std::optional<VertexDescriptor> wildcard_node;
 
@@ -505,13 +506,14 @@ void label::Graph::SubDomainECGeneration(
             if ((*this)[edge.m_target].name.get() == "*") {
                 wildcard_node = edge.m_target;
             }
-            SubDomainECGeneration(edge.m_target, name, false, current_job, context, check_structural_delegations);
+            SubDomainECGeneration(
+                edge.m_target, name, false, current_job, context, check_structural_delegations, visited_len);
         }
         if ((*this)[edge].type == dname) {
-            SubDomainECGeneration(edge.m_target, name, true, current_job, context, false);
+            SubDomainECGeneration(edge.m_target, name, true, current_job, context, false, visited_len);
         }
     }
-    (*this)[start].len = beforeLen;
+    visited_len[start] = beforeLen;
     if (!skipLabel) {
         // EC for the node if the node is not skipped.
         NodeEC(name, current_job);
@@ -592,9 +594,11 @@ void label::Graph::GenerateECs(Job &current_job, const Context &context)
                 // EC producer threads
                 for (auto &encloser : closest_enclosers) {
                     ECproducers.push_back(thread([&]() {
+                        // Every traversal has its own loop-detection state as they run in parallel.
+                        std::vector<int16_t> visited_len(num_vertices(*this), -1);
                         SubDomainECGeneration(
                             encloser.first, parent_domain_name, false, current_job, context,
-                            current_job.check_structural_delegations);
+                            current_job.check_structural_delegations, visited_len);
                     }));
                 }
                 for (auto &t : ECproducers) {
diff --git a/src/label-graph.h b/src/label-graph.h
index eb1a148..0275381 100644
--- a/src/label-graph.h
+++ b/src/label-graph.h
@@ -122,7 +122,14 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::dire
     // string GetHostingNameServer(int, const Context &) const;
     void NodeEC(const vector<NodeLabel> &name, Job &) const;
     vector<ClosestNode> SearchNode(VertexDescriptor, const vector<NodeLabel> &, int);
-    void SubDomainECGeneration(VertexDescriptor, vector<NodeLabel>, bool, Job &, const Context &, bool);
+    void SubDomainECGeneration(
+        VertexDescriptor,
+        vector<NodeLabel>,
+        bool,
+        Job &,
+        const Context &,
+        bool,
+        std::vector<int16_t> &);
     void WildcardChildEC(std::vector<NodeLabel> &, const vector<NodeLabel> &, int, Job &) const;
 
   public:
-- 
2.43.0


From 187100d01aab0fce863f0f48b576ed8a3e1c9fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 07/38] fix: DS records index past the end of the type sets

DS is parsed but has no bit in std::bitset<RRType::N>: printing a rejected DS
record threw std::out_of_range and ended the run, look-ups wrote and read out of
bounds.
---
 src/resource-record.cpp | 4 +---
 src/utils.cpp           | 3 ++-
 src/zone-graph.cpp      | 9 ++++++---
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/resource-record.cpp b/src/resource-record.cpp
index 8dbed6c..1b92769 100644
--- a/src/resource-record.cpp
+++ b/src/resource-record.cpp
@@ -24,9 +24,7 @@ ostream &operator<<(ostream &os, const ResourceRecord &rr)
 
 string ResourceRecord::toString()
 {
-    std::bitset<RRType::N> rrTypes;
-    rrTypes.set(type_);
-    return LabelUtils::LabelsToString(name_) + "   " + TypeUtils::TypesToString(rrTypes) + "   " + rdata_.get();
+    return LabelUtils::LabelsToString(name_) + "   " + TypeUtils::TypeToString(type_) + "   " + rdata_.get();
 }
 
 vector<NodeLabel> ResourceRecord::get_name() const
diff --git a/src/utils.cpp b/src/utils.cpp
index dff5a85..61a3458 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -131,8 +131,9 @@ RRType TypeUtils::StringToType(const string &type)
     return N;
 }
 
+// The last entry stands for RRType::N, the only such type the parser accepts is DS.
 string type_to_string[] = {"A",   "NS",   "CNAME", "DNAME", "SOA",  "PTR", "MX",
-                           "TXT", "AAAA", "SRV",   "RRSIG", "NSEC", "SPF"};
+                           "TXT", "AAAA", "SRV",   "RRSIG", "NSEC", "SPF", "DS"};
 
 string TypeUtils::TypeToString(RRType type)
 {
diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index b2d228e..4a87182 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -273,7 +273,10 @@ std::bitset<RRType::N> zone::Graph::GetNodeRRTypes(const vector<ResourceRecord>
 {
     std::bitset<RRType::N> rrTypes;
     for (auto &record : rrs) {
-        rrTypes[record.get_type()] = 1;
+        // Types that are parsed but not modelled (DS) have no bit in the set.
+        if (record.get_type() != RRType::N) {
+            rrTypes[record.get_type()] = 1;
+        }
     }
     return rrTypes;
 }
@@ -302,7 +305,7 @@ bool zone::Graph::WildcardMatch(
                     }
                     return true; // If CNAME then other records would be ignored.
                 }
-                if (query.rrTypes[record.get_type()] == 1) {
+                if (record.get_type() != RRType::N && query.rrTypes[record.get_type()] == 1) {
                     matchingRRs.push_back(record);
                     queryTypesFound.set(record.get_type());
                 }
@@ -402,7 +405,7 @@ boost::optional<vector<zone::LookUpAnswer>> zone::Graph::QueryLookUpAtZone(const
         for (auto &record : (*this)[closest_encloser].rrs) {
             if (record.get_type() == RRType::NS) {
                 ns_records.push_back(record);
-            } else if (query.rrTypes[record.get_type()] == 1) {
+            } else if (record.get_type() != RRType::N && query.rrTypes[record.get_type()] == 1) {
                 query_types_found.set(record.get_type());
                 matching_rrs.push_back(record);
             }
-- 
2.43.0


From 4d71324eb0791f48e75756d0e127e4a7a3d3d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 08/38] fix: names that only own a DS record have no query
 class

The zone graph keeps the record, so the name exists there, but the label graph
skipped it: queries for it were covered by the 'other child' class, which gets a
name error instead of the empty answer.
---
 src/label-graph.cpp | 79 +++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 39 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index b2bf360..753cc27 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -109,51 +109,52 @@ void label::Graph::AddResourceRecord(
     const int &zoneId,
     zone::Graph::VertexDescriptor zone_vertexId)
 {
-    if (record.get_type() != RRType::N) {
-        int index = 0;
-        vector<NodeLabel> name_labels = record.get_name();
-        vector<VertexDescriptor> vertices_to_create_maps{};
-        VertexDescriptor closest_encloser = GetAncestor(root_, name_labels, vertices_to_create_maps, index);
+    int index = 0;
+    vector<NodeLabel> name_labels = record.get_name();
+    vector<VertexDescriptor> vertices_to_create_maps{};
+    VertexDescriptor closest_encloser = GetAncestor(root_, name_labels, vertices_to_create_maps, index);
+    for (auto &v : vertices_to_create_maps) {
+        ConstructChildLabelsToVertexDescriptorMap(v);
+    }
+    vertices_to_create_maps.clear();
+    VertexDescriptor main_node = AddNodes(closest_encloser, name_labels, index);
+    if (record.get_type() == RRType::DNAME) {
+        vector<NodeLabel> labels = LabelUtils::StringToLabels(record.get_rdata());
+        index = 0;
+        closest_encloser = GetAncestor(root_, labels, vertices_to_create_maps, index);
         for (auto &v : vertices_to_create_maps) {
             ConstructChildLabelsToVertexDescriptorMap(v);
         }
-        vertices_to_create_maps.clear();
-        VertexDescriptor main_node = AddNodes(closest_encloser, name_labels, index);
-        if (record.get_type() == RRType::DNAME) {
-            vector<NodeLabel> labels = LabelUtils::StringToLabels(record.get_rdata());
-            index = 0;
-            closest_encloser = GetAncestor(root_, labels, vertices_to_create_maps, index);
-            for (auto &v : vertices_to_create_maps) {
-                ConstructChildLabelsToVertexDescriptorMap(v);
-            }
-            VertexDescriptor second_node = AddNodes(closest_encloser, labels, index);
-            // Check if DNAME edge was added due to another zone file
-            bool duplicate = false;
-            for (const EdgeDescriptor& edge : boost::make_iterator_range(out_edges(main_node, *this))) {
-                if (edge.m_target == second_node && (*this)[edge].type == dname) {
-                    duplicate = true;
-                }
+        VertexDescriptor second_node = AddNodes(closest_encloser, labels, index);
+        // Check if DNAME edge was added due to another zone file
+        bool duplicate = false;
+        for (const EdgeDescriptor& edge : boost::make_iterator_range(out_edges(main_node, *this))) {
+            if (edge.m_target == second_node && (*this)[edge].type == dname) {
+                duplicate = true;
             }
-            if (!duplicate) {
-                EdgeDescriptor e;
-                bool b;
-                boost::tie(e, b) = boost::add_edge(main_node, second_node, *this);
-                if (!b) {
-                    Logger->critical(
-                        fmt::format("label-graph.cpp (AddResourceRecord) - Unable to add edge to label graph"));
-                    exit(EXIT_FAILURE);
-                }
-                (*this)[e].type = dname;
+        }
+        if (!duplicate) {
+            EdgeDescriptor e;
+            bool b;
+            boost::tie(e, b) = boost::add_edge(main_node, second_node, *this);
+            if (!b) {
+                Logger->critical(
+                    fmt::format("label-graph.cpp (AddResourceRecord) - Unable to add edge to label graph"));
+                exit(EXIT_FAILURE);
             }
+            (*this)[e].type = dname;
         }
-        auto it = std::find_if(
-            (*this)[main_node].zoneId_vertexId.begin(), (*this)[main_node].zoneId_vertexId.end(),
-            [=](const std::tuple<int, zone::Graph::VertexDescriptor> &e) {
-                return std::get<0>(e) == zoneId && std::get<1>(e) == zone_vertexId;
-            });
-        if (it == (*this)[main_node].zoneId_vertexId.end())
-            (*this)[main_node].zoneId_vertexId.push_back(
-                tuple<int, zone::Graph::VertexDescriptor>(zoneId, zone_vertexId));
+    }
+    auto it = std::find_if(
+        (*this)[main_node].zoneId_vertexId.begin(), (*this)[main_node].zoneId_vertexId.end(),
+        [=](const std::tuple<int, zone::Graph::VertexDescriptor> &e) {
+            return std::get<0>(e) == zoneId && std::get<1>(e) == zone_vertexId;
+        });
+    if (it == (*this)[main_node].zoneId_vertexId.end())
+        (*this)[main_node].zoneId_vertexId.push_back(
+            tuple<int, zone::Graph::VertexDescriptor>(zoneId, zone_vertexId));
+    // A type that is parsed but not modelled (DS) still makes the name exist.
+    if (record.get_type() != RRType::N) {
         (*this)[main_node].rrtypes_available.set(record.get_type());
     }
 }
-- 
2.43.0


From c6f727afeb0b4bd4fd6a0c989f74dc3ba0eb21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 09/38] fix: a quoted quote in a TXT record swallowed the
 records after it

The token for quoted strings ended at the first quote even if it was escaped, and
the rest of the file was read with strings and separators swapped.
---
 src/zone-file-parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index a6b2205..e29d873 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -33,8 +33,9 @@ enum TokenIds {
 template <typename Lexer> struct zone_file_tokens : lex::lexer<Lexer> {
     zone_file_tokens()
     {
-        this->self.add("\\\"[^\\\"]*\\\"", ID_TEXT_WORD)(";[^\n]+", ID_COMMENT)(
-            "((\\\\\\()*(\\\\\\))*[^ ;\t\r\n\\(\\)\\\"]+)+",
+        // A backslash quotes the character after it, inside and outside of quoted strings.
+        this->self.add("\\\"([^\\\"\\\\]|\\\\[^\r\n])*\\\"", ID_TEXT_WORD)(";[^\n]+", ID_COMMENT)(
+            "([^ ;\t\r\n\\(\\)\\\"\\\\]|\\\\[^\r\n])+",
             ID_WORD)("\\(", ID_LPAREN)("\\)", ID_RPAREN)("\n", ID_EOL)("[ \t]+", ID_WHITESPACE)(".", ID_OTHER);
     }
 };
-- 
2.43.0


From c5505e07f29743afdd2e6a051c09f95f51b0e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 10/38] fix: inherit the owner from the last record, whatever
 its type

A record of a type that is not handled (TLSA, CAA, ...) did not set the owner for the
records after it, which were then filed under an earlier name.
---
 src/zone-file-parser.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index e29d873..92dde19 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -122,7 +122,6 @@ struct Parser {
                 if (current_record[0].compare("@") == 0) {
                     if (relative_domain_suffix.length() > 0) {
                         current_record[0] = relative_domain_suffix;
-                        default_values.set_name(relative_domain_suffix);
                     } else {
                         Logger->error(fmt::format(
                             "zone-file-parser.cpp (Parser()) - Encountered @ symbol but relative "
@@ -132,6 +131,15 @@ struct Parser {
                     }
                 }
 
+                // The owner is inherited by later records even if the type of this record is not handled.
+                if (current_record[0].size() > 0 && current_record[0][0] != '$') {
+                    std::string owner = current_record[0];
+                    if (!boost::algorithm::ends_with(owner, ".") && relative_domain_suffix.size() > 0) {
+                        owner = owner + "." + relative_domain_suffix;
+                    }
+                    default_values.set_name(owner);
+                }
+
                 // Search for the index where the RR type is found
                 int typeIndex = GetTypeIndex(current_record);
                 if (typeIndex == -1) {
@@ -162,7 +170,6 @@ struct Parser {
                         if (i == 0) {
                             if (field.size() > 0) {
                                 name = field;
-                                default_values.set_name(field);
                             }
                         } else if (boost::iequals(field, "CH")) {
                             Logger->warn(fmt::format(
@@ -197,7 +204,6 @@ struct Parser {
                 }
                 if (!boost::algorithm::ends_with(name, ".")) {
                     name = name + "." + relative_domain_suffix;
-                    default_values.set_name(name);
                 }
                 // compare returns zero when equal
                 if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX")) {
-- 
2.43.0


From 14667b786a79d0ff6be582cd42721417f25ea29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 11/38] fix: qualify '@' and names relative to the root
 correctly

'@' as NS, CNAME, DNAME or MX target became the label '@', names relative to the
root origin got an empty label ('a..'), and a zone whose SOA inherits its owner was
dropped after its records had been added to the label graph.
---
 src/zone-file-parser.cpp | 45 ++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 92dde19..d3031d9 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -40,6 +40,18 @@ template <typename Lexer> struct zone_file_tokens : lex::lexer<Lexer> {
     }
 };
 
+// Returns the fully qualified form of a name as written in a zone file.
+static string FullyQualify(const string &name, const string &origin)
+{
+    if (name == "@") {
+        return origin;
+    }
+    if (boost::algorithm::ends_with(name, ".") && !boost::algorithm::ends_with(name, "\\.")) {
+        return name;
+    }
+    return origin == "." ? name + "." : name + "." + origin;
+}
+
 struct Parser {
     typedef bool result_type;
     // Can only take at max ten parameters
@@ -133,11 +145,7 @@ struct Parser {
 
                 // The owner is inherited by later records even if the type of this record is not handled.
                 if (current_record[0].size() > 0 && current_record[0][0] != '$') {
-                    std::string owner = current_record[0];
-                    if (!boost::algorithm::ends_with(owner, ".") && relative_domain_suffix.size() > 0) {
-                        owner = owner + "." + relative_domain_suffix;
-                    }
-                    default_values.set_name(owner);
+                    default_values.set_name(FullyQualify(current_record[0], relative_domain_suffix));
                 }
 
                 // Search for the index where the RR type is found
@@ -196,33 +204,20 @@ struct Parser {
                 rdata = rdata.substr(0, rdata.size() - 1);
                 if (name.length() == 0) {
                     name = LabelUtils::LabelsToString(default_values.get_name());
-                } else if (type == "SOA") {
+                } else {
+                    name = FullyQualify(name, relative_domain_suffix);
+                }
+                if (type == "SOA") {
                     mc.found_SOA = true;
                     if (relative_domain_suffix.size() == 0) {
                         relative_domain_suffix = name;
                     }
                 }
-                if (!boost::algorithm::ends_with(name, ".")) {
-                    name = name + "." + relative_domain_suffix;
-                }
                 // compare returns zero when equal
                 if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX")) {
-                    if (!boost::algorithm::ends_with(rdata, ".")) {
-                        // if (relativeDomainSuffix.length() > 0) {
-                        //	if (rdata.compare("@") == 0) {
-                        //		rdata = relativeDomainSuffix;
-                        //	}
-                        //	else {
-                        //		rdata = rdata + "." + relativeDomainSuffix;
-                        //	}
-                        //}
-                        // else {
-                        //	cout << "Encountered @ symbol but relative domain is empty for rdata";
-                        //	currentRecord.clear();
-                        //	return false;
-                        //}
-                        rdata = rdata + "." + relative_domain_suffix;
-                    }
+                    // The name is the last field, after the preference in case of MX.
+                    size_t start = rdata.rfind(' ') == string::npos ? 0 : rdata.rfind(' ') + 1;
+                    rdata = rdata.substr(0, start) + FullyQualify(rdata.substr(start), relative_domain_suffix);
                 }
                 boost::to_lower(rdata);
                 boost::to_lower(name);
-- 
2.43.0


From 7f111f7c9be2fd52ce2eb8c35e8649ecd65dafb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 12/38] fix: handle relative $ORIGIN names and $ORIGIN without
 a name

A relative $ORIGIN replaced the current origin instead of extending it and one
without a name read past the end of the record's fields. The origin given in the
metadata is absolute, with or without its final dot.
---
 src/zone-file-parser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index d3031d9..d08e7e4 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -110,7 +110,14 @@ struct Parser {
             if (paren_count == 0 && current_record.size() > 0) {
                 // Control entry $ORIGIN - Sets the origin for relative domain names
                 if (current_record[0].compare("$ORIGIN") == 0) {
-                    relative_domain_suffix = current_record[1];
+                    if (current_record.size() < 2) {
+                        Logger->error(fmt::format(
+                            "zone-file-parser.cpp (Parser()) - $ORIGIN without a name at line - {} in file - {}", l,
+                            mc.file_name));
+                        return false;
+                    }
+                    // The name may itself be relative to the current origin.
+                    relative_domain_suffix = FullyQualify(current_record[1], relative_domain_suffix);
                     boost::to_lower(relative_domain_suffix);
                     current_record.clear();
                     return true;
@@ -398,7 +405,7 @@ int Driver::ParseZoneFileAndExtendGraphs(string file, string nameserver, string
     // mutable state that will be updated by the parser.
     size_t l = 0;
     int parenCount = 0;
-    string relative_domain = origin;
+    string relative_domain = origin.empty() ? origin : FullyQualify(origin, "");
     ResourceRecord defaultValues("", "", 0, 0, "");
     vector<string> currentRecord;
 
-- 
2.43.0


From 77774a56fc77f8b1dded9fb2fa34f43a7cb8de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 13/38] fix: a bad TTL in one zone file ended the whole run

$TTL without a value read past the end of the record's fields; a TTL that is not a
number or does not fit threw an uncaught exception out of the parser.
---
 src/zone-file-parser.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index d08e7e4..599ca4e 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -131,7 +131,14 @@ struct Parser {
                 }
                 // Control entry $TTL - The TTL for records without explicit TTL value
                 if (current_record[0].compare("$TTL") == 0) {
-                    default_values.set_ttl(std::stoi(current_record[1]));
+                    uint32_t default_ttl = 0;
+                    if (current_record.size() < 2 || !ParseTTL(current_record[1], default_ttl)) {
+                        Logger->error(fmt::format(
+                            "zone-file-parser.cpp (Parser()) - Invalid $TTL at line - {} in file - {}", l,
+                            mc.file_name));
+                        return false;
+                    }
+                    default_values.set_ttl(default_ttl);
                     current_record.clear();
                     return true;
                 }
@@ -193,8 +200,7 @@ struct Parser {
                             class_ = 3;
                         } else if (boost::iequals(field, "IN")) {
                             class_ = 1;
-                        } else if (isInteger(field)) {
-                            ttl = std::stoi(field);
+                        } else if (isInteger(field) && ParseTTL(field, ttl)) {
                             if (default_values.get_ttl() == 0)
                                 default_values.set_ttl(ttl);
                         } else {
@@ -358,6 +364,18 @@ struct Parser {
         return index;
     }
 
+    // A TTL is a 31 bit unsigned number.
+    inline bool ParseTTL(const std::string &s, uint32_t &ttl) const
+    {
+        char *end;
+        long value = strtol(s.c_str(), &end, 10);
+        if (end == s.c_str() || value < 0 || value > 0x7fffffff) {
+            return false;
+        }
+        ttl = static_cast<uint32_t>(value);
+        return true;
+    }
+
     inline bool isInteger(const std::string &s) const
     {
         if (s.empty() || ((!isdigit(s[0])) && (s[0] != '-') && (s[0] != '+')))
-- 
2.43.0


From a00349a4fa690134098a3f675fec2a6e30631932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 14/38] fix: TTL of records that omit it

Without $TTL the first explicit TTL of the file was used instead of the last stated
one (RFC 1035), and with '$TTL 0' the next explicit TTL replaced the default.
---
 src/zone-file-parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 599ca4e..9daf2e8 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -15,6 +15,7 @@ struct MiniContext {
     string file_name = "";
     bool found_SOA = false;
     bool lint = false;
+    bool ttl_directive = false;
     int rrs_parsed = 0;
     std::unordered_map<string, long> type_to_count;
 };
@@ -139,6 +140,7 @@ struct Parser {
                         return false;
                     }
                     default_values.set_ttl(default_ttl);
+                    mc.ttl_directive = true;
                     current_record.clear();
                     return true;
                 }
@@ -201,7 +203,8 @@ struct Parser {
                         } else if (boost::iequals(field, "IN")) {
                             class_ = 1;
                         } else if (isInteger(field) && ParseTTL(field, ttl)) {
-                            if (default_values.get_ttl() == 0)
+                            // Without $TTL an omitted TTL is the last one stated explicitly.
+                            if (!mc.ttl_directive)
                                 default_values.set_ttl(ttl);
                         } else {
                             Logger->warn(fmt::format(
-- 
2.43.0


From 1aa81d17bb062c10bec0b5a059faafd1ddbb604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 15/38] fix: inherit the TTL from the last record that states
 one, whatever its type

---
 src/zone-file-parser.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 9daf2e8..882f33e 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -164,6 +164,18 @@ struct Parser {
                     default_values.set_name(FullyQualify(current_record[0], relative_domain_suffix));
                 }
 
+                // The same holds for its TTL, which stands before or after the class, unless there is a $TTL.
+                for (int f = 1; !mc.ttl_directive && f < current_record.size(); f++) {
+                    uint32_t stated_ttl;
+                    if (isInteger(current_record[f]) && ParseTTL(current_record[f], stated_ttl)) {
+                        default_values.set_ttl(stated_ttl);
+                        break;
+                    }
+                    if (!boost::iequals(current_record[f], "IN") && !boost::iequals(current_record[f], "CH")) {
+                        break;
+                    }
+                }
+
                 // Search for the index where the RR type is found
                 int typeIndex = GetTypeIndex(current_record);
                 if (typeIndex == -1) {
@@ -203,9 +215,7 @@ struct Parser {
                         } else if (boost::iequals(field, "IN")) {
                             class_ = 1;
                         } else if (isInteger(field) && ParseTTL(field, ttl)) {
-                            // Without $TTL an omitted TTL is the last one stated explicitly.
-                            if (!mc.ttl_directive)
-                                default_values.set_ttl(ttl);
+                            // The TTL of this record, see above for the default.
                         } else {
                             Logger->warn(fmt::format(
                                 "zone-file-parser.cpp (Parser()) - RR at line {} in file {} is "
-- 
2.43.0


From 0047197998964c1e5026ed5c3b6eeffaf17393a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 16/38] fix: names of maximum legal length were rejected

A name of 255 octets on the wire has 254 characters including the final dot; 253 is
the limit without it. Names of exactly the maximum had no query class either.
---
 src/label-graph.cpp | 4 ++--
 src/node-label.h    | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 753cc27..fbf3bc4 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -467,7 +467,7 @@ void label::Graph::SubDomainECGeneration(
     for (NodeLabel &l : parent_domain_name) {
         len += l.get().length() + 1;
     }
-    if (len >= kMaxDomainLength || (len == visited_len[start] && skipLabel)) {
+    if (len > kMaxDomainLength || (len == visited_len[start] && skipLabel)) {
         //return if length exceedes or DNAME loop detected 
         //mostly likely turns out as cyclic zone dependecy so no need to report here
         return;
@@ -489,7 +489,7 @@ void label::Graph::SubDomainECGeneration(
     for (NodeLabel &l : name) {
         nodeLen += l.get().length() + 1;
     }
-    if (nodeLen >= kMaxDomainLength) {
+    if (nodeLen > kMaxDomainLength) {
         return;
     }
     visited_len[start] = static_cast<int16_t>(nodeLen);
diff --git a/src/node-label.h b/src/node-label.h
index 3b4577e..6649792 100644
--- a/src/node-label.h
+++ b/src/node-label.h
@@ -28,7 +28,8 @@ using json = nlohmann::json;
 
 #define kHashMapThreshold 500
 #define kMaxLabelLength 63
-#define kMaxDomainLength 253
+// Length of a name written with its final dot, 255 octets on the wire.
+#define kMaxDomainLength 254
 
 struct Empty {
 };
-- 
2.43.0


From 2024116e20f3e956f7048c7c5bb535ad9d1ccadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 17/38] fix: delegation consistency took requested addresses
 for glue

When another property of the job requests A or AAAA, the answer of the child holds the
addresses of the query name itself; these were compared with the parent's glue.
---
 src/properties.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 01a8f5e..78c24c8 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -22,13 +22,20 @@ void interpretation::Graph::Properties::PrettyPrintResponseValue(
 tuple<vector<ResourceRecord>, vector<ResourceRecord>> interpretation::Graph::Properties::GetNSGlueRecords(
     const vector<ResourceRecord> &records)
 {
-    // From the input set of records, return the NS records and IP records
+    // From the input set of records, return the NS records and the IP records of the servers they name. An answer may
+    // also hold IP records of the query name itself if these were requested too.
     vector<ResourceRecord> nsRecords;
     vector<ResourceRecord> glueRecords;
+    vector<vector<NodeLabel>> servers;
     for (auto r : records) {
-        if (r.get_type() == RRType::NS)
+        if (r.get_type() == RRType::NS) {
             nsRecords.push_back(r);
-        if (r.get_type() == RRType::A || r.get_type() == RRType::AAAA)
+            servers.push_back(LabelUtils::StringToLabels(r.get_rdata()));
+        }
+    }
+    for (auto r : records) {
+        if ((r.get_type() == RRType::A || r.get_type() == RRType::AAAA) &&
+            std::find(servers.begin(), servers.end(), r.get_name()) != servers.end())
             glueRecords.push_back(r);
     }
     return std::make_tuple(nsRecords, glueRecords);
-- 
2.43.0


From 354f5929add4b0ec5ba0d248f92dbde844441a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 18/38] fix: compare record collections as sets

A record can occur twice in an answer, with different TTLs or as glue of two NS records;
the second copy was reported as exclusive to one side.
---
 src/utils.cpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 61a3458..cc97e85 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -163,27 +163,26 @@ CommonSymDiff RRUtils::CompareRRs(vector<ResourceRecord> res_a, vector<ResourceR
 {
     // For the given pair of collection of resource records, return the common RR's, RR's present only in A and RR's
     // present only in B.
-    // Assumption: resA and resB has unique records (no two records in either vector are exactly the same)
+    // The collections are compared as sets: a record may occur several times, as glue of several NS records or with
+    // different TTLs.
+    auto contains = [](const vector<ResourceRecord> &records, const ResourceRecord &record) {
+        return std::find(records.begin(), records.end(), record) != records.end();
+    };
     vector<ResourceRecord> common;
-    auto it = res_a.begin();
-    while (it != res_a.end()) {
-        auto itb = res_b.begin();
-        bool erased = false;
-        while (itb != res_b.end()) {
-            if (*it == *itb) {
-                common.push_back(*it);
-                it = res_a.erase(it);
-                res_b.erase(itb);
-                erased = true;
-                break;
-            } else {
-                itb++;
-            }
+    vector<ResourceRecord> only_a;
+    vector<ResourceRecord> only_b;
+    for (auto &record : res_a) {
+        vector<ResourceRecord> &side = contains(res_b, record) ? common : only_a;
+        if (!contains(side, record)) {
+            side.push_back(record);
+        }
+    }
+    for (auto &record : res_b) {
+        if (!contains(res_a, record) && !contains(only_b, record)) {
+            only_b.push_back(record);
         }
-        if (!erased)
-            it++;
     }
-    return std::make_tuple(common, res_a, res_b);
+    return std::make_tuple(common, only_a, only_b);
 }
 
 void LintUtils::WriteIssueToFile(json &log_line, bool lint)
-- 
2.43.0


From 8eefd5dcb78cd4b06c4fc54d6ca4c69860ea5155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 19/38] fix: response consistency compared a CNAME with the
 other answers

---
 src/properties.cpp | 62 ++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 78c24c8..28c373e 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -139,16 +139,25 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
     /*
       The set of end nodes is given and checks if same response is received from all the end nodes.
       We may encounter nodes with Refused/NSnotfound in which case we have incomplete information.
-      The end nodes might be a mix of CNAME node and others.
+      The end nodes might be a mix of CNAME node and others. A node at which the path ends only for type CNAME (Rewrite
+      tag) answers the CNAME query, the other types are answered at the end of the rewritten query.
     */
-    boost::optional<vector<zone::LookUpAnswer>> response;
+    const std::bitset<RRType::N> cname_type = std::bitset<RRType::N>().set(RRType::CNAME);
+    const std::bitset<RRType::N> other_types = typesReq & ~cname_type;
+    boost::optional<vector<ResourceRecord>> cname_response;
+    boost::optional<vector<ResourceRecord>> response;
     bool incomplete = false;
     bool foundDiff = false;
-    /*
-       CNAME end nodes - (1) Nodes with Rewrite tag in this vector
-                         (2) Nodes with the query requesting for CNAME (covers 1 too)
-    */
-    vector<VertexDescriptor> cname_end_nodes{};
+    auto compare = [&foundDiff](boost::optional<vector<ResourceRecord>> &first, vector<ResourceRecord> records) {
+        if (!first) {
+            first = std::move(records);
+        } else {
+            CommonSymDiff diff = RRUtils::CompareRRs(records, first.get());
+            if (std::get<1>(diff).size() || std::get<2>(diff).size()) {
+                foundDiff = true;
+            }
+        }
+    };
     for (auto vd : end_nodes) {
         if ((graph[vd].query.rrTypes & typesReq).count() > 0 && graph[vd].ns != "") {
             boost::optional<vector<zone::LookUpAnswer>> answer = graph[vd].answer;
@@ -157,17 +166,18 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
                     std::get<0>(answer.get()[0]) == ReturnTag::NSNOTFOUND) {
                     incomplete = true;
                 } else {
-                    if (graph[vd].query.rrTypes[RRType::CNAME]) {
-                        cname_end_nodes.push_back(vd);
-                    }
-                    if (!response) {
-                        response = answer;
-                    } else {
-                        CommonSymDiff diff =
-                            RRUtils::CompareRRs(std::get<2>(answer.get()[0]), std::get<2>(response.get()[0]));
-                        if (std::get<1>(diff).size() || std::get<2>(diff).size()) {
-                            foundDiff = true;
+                    if ((graph[vd].query.rrTypes & typesReq & cname_type).any()) {
+                        vector<ResourceRecord> cname_records;
+                        for (auto &r : std::get<2>(answer.get()[0])) {
+                            if (r.get_type() == RRType::CNAME) {
+                                cname_records.push_back(r);
+                            }
                         }
+                        compare(cname_response, std::move(cname_records));
+                    }
+                    if ((graph[vd].query.rrTypes & other_types).any() &&
+                        std::get<0>(answer.get()[0]) != ReturnTag::REWRITE) {
+                        compare(response, std::get<2>(answer.get()[0]));
                     }
                 }
             } else {
@@ -178,24 +188,6 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
             }
         }
     }
-    response = {};
-    for (auto &vd : cname_end_nodes) {
-        if (!response) {
-            response = graph[vd].answer;
-        } else {
-            if (std::get<0>(graph[vd].answer.get()[0]) != std::get<0>(response.get()[0])) {
-                foundDiff = true;
-            } else {
-                // If only CNAME is requested then the answer will only have one element
-                // If CNAME and other types are requested then there might be a node with Rewrite
-                CommonSymDiff diff =
-                    RRUtils::CompareRRs(std::get<2>(graph[vd].answer.get()[0]), std::get<2>(response.get()[0]));
-                if (std::get<1>(diff).size() || std::get<2>(diff).size()) {
-                    foundDiff = true;
-                }
-            }
-        }
-    }
     // TODO: Provide more info about the inconsistency.
     if (foundDiff) {
         json tmp;
-- 
2.43.0


From d71e678696175e65122c4aa15286684436cef8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 20/38] fix: zero TTL reported records of types that were not
 requested

---
 src/properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 28c373e..0e03ef7 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -217,7 +217,7 @@ void interpretation::Graph::Properties::ZeroTTL(
                 } else {
                     auto &rrs = std::get<2>(answer.get()[0]);
                     for (auto &r : rrs) {
-                        if (r.get_ttl() == 0) {
+                        if (r.get_ttl() == 0 && r.get_type() != RRType::N && typesReq[r.get_type()]) {
                             json tmp;
                             tmp["Property"] = "Zero TTL";
                             tmp["Query"] = graph[end_nodes[0]].query.ToString();
-- 
2.43.0


From d7ae1ce7b2f55fae1433d36d6cba5f1b199271ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 21/38] fix: response returned gave up at the first
 non-existent end node

---
 src/properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 0e03ef7..668f6c3 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -55,7 +55,7 @@ void interpretation::Graph::Properties::CheckResponseReturned(
     for (auto vd : end_nodes) {
         // If the EC is for a non-existent node then by default it will not return an answer
         if (graph[vd].query.nonExistent) {
-            return;
+            continue;
         }
         if ((graph[vd].query.rrTypes & types_req).count() > 0 && graph[vd].ns != "") {
             boost::optional<vector<zone::LookUpAnswer>> answer = graph[vd].answer;
-- 
2.43.0


From 678929b8575e49a005577fc2ffc5038e80278aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 22/38] fix: response value compared case-sensitively and at
 rewrites that do not end the query

---
 src/driver.cpp     | 2 ++
 src/properties.cpp | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index e3ab206..db8171c 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -253,6 +253,8 @@ void Driver::SetJob(const json &user_job)
         } else if (name == "ResponseValue") {
             std::set<string> values;
             for (string v : property["Value"]) {
+                // The data of the records is in lower case
+                boost::to_lower(v);
                 values.insert(v);
             }
             if (values.size()) {
diff --git a/src/properties.cpp b/src/properties.cpp
index 668f6c3..0c61552 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -99,6 +99,10 @@ void interpretation::Graph::Properties::CheckResponseValue(
     bool incomplete = false;
     json tmp;
     for (auto vd : end_nodes) {
+        // A rewrite ends the path only for type CNAME, the other types are answered at the end of the rewritten query.
+        if (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE && !types_requested[RRType::CNAME]) {
+            continue;
+        }
         if ((graph[vd].query.rrTypes & types_requested).count() > 0) {
             if (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::ANS ||
                 std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE) {
-- 
2.43.0


From e0748699cbe6c7a4c1ffe3d1a159893efb516c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 23/38] fix: a job with a missing or wrong field aborted the
 program

A missing field hit an assertion, and the bound of Hops and Rewrites was only
converted to a number in the threads that check the property, where the
exception ended the program. A negative bound of Hops is no huge number.
---
 src/driver.cpp     | 28 ++++++++++++++--------------
 src/properties.cpp |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index db8171c..ed34169 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -211,20 +211,20 @@ long Driver::SetContext(const json &metadata, string directory, bool lint)
 
 void Driver::SetJob(const json &user_job)
 {
-    string d = string(user_job["Domain"]);
+    string d = string(user_job.at("Domain"));
     boost::to_lower(d);
     current_job_.stats.ec_count = 0;
     current_job_.stats.interpretation_edges.clear();
     current_job_.stats.interpretation_vertices.clear();
     current_job_.user_input_domain = d;
-    current_job_.check_subdomains = user_job["SubDomain"];
+    current_job_.check_subdomains = user_job.at("SubDomain");
     current_job_.check_structural_delegations = false;
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
 
-    for (auto &property : user_job["Properties"]) {
-        string name = property["PropertyName"];
+    for (auto &property : user_job.at("Properties")) {
+        string name = property.at("PropertyName");
         std::bitset<RRType::N> propertyTypes;
         if (property.find("Types") != property.end()) {
             for (auto typ : property["Types"]) {
@@ -252,7 +252,7 @@ void Driver::SetJob(const json &user_job)
             current_job_.node_functions.push_back(la);
         } else if (name == "ResponseValue") {
             std::set<string> values;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 // The data of the records is in lower case
                 boost::to_lower(v);
                 values.insert(v);
@@ -269,17 +269,17 @@ void Driver::SetJob(const json &user_job)
                 Logger->error(fmt::format(
                     "driver.cpp (SetJob) - Skipping ResponseValue property check for {} as the "
                     "Values is an empty list.",
-                    string(user_job["Domain"])));
+                    string(user_job.at("Domain"))));
             }
         } else if (name == "Hops") {
-            auto l = [num_hops = property["Value"]](
+            auto l = [num_hops = property.at("Value").get<int>()](
                          const interpretation::Graph &graph, const interpretation::Graph::Path &p,
                          moodycamel::ConcurrentQueue<json> &json_queue) {
                 interpretation::Graph::Properties::NumberOfHops(graph, p, json_queue, num_hops);
             };
             current_job_.path_functions.push_back(l);
         } else if (name == "Rewrites") {
-            auto l = [num_rewrites = property["Value"]](
+            auto l = [num_rewrites = property.at("Value").get<int>()](
                          const interpretation::Graph &graph, const interpretation::Graph::Path &p,
                          moodycamel::ConcurrentQueue<json> &json_queue) {
                 interpretation::Graph::Properties::NumberOfRewrites(graph, p, json_queue, num_rewrites);
@@ -305,7 +305,7 @@ void Driver::SetJob(const json &user_job)
             current_job_.path_functions.push_back(l);
         } else if (name == "QueryRewrite") {
             vector<vector<NodeLabel>> allowed_domains;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 boost::to_lower(v);
                 allowed_domains.push_back(LabelUtils::StringToLabels(v));
             }
@@ -319,11 +319,11 @@ void Driver::SetJob(const json &user_job)
             } else {
                 Logger->error(fmt::format(
                     "driver.cpp (SetJob) - Skipping QueryRewrite property check for {} as the Values is an empty list.",
-                    string(user_job["Domain"])));
+                    string(user_job.at("Domain"))));
             }
         } else if (name == "NameserverContact") {
             vector<vector<NodeLabel>> allowed_domains;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 boost::to_lower(v);
                 allowed_domains.push_back(LabelUtils::StringToLabels(v));
             }
@@ -338,13 +338,13 @@ void Driver::SetJob(const json &user_job)
                 Logger->error(fmt::format(
                     "driver.cpp (SetJob) - Skipping NameServerContact property check for {} as "
                     "the Values is an empty list.",
-                    string(user_job["Domain"])));
+                    string(user_job.at("Domain"))));
             }
         } else if (name == "RewriteBlackholing") {
             current_job_.path_functions.push_back(interpretation::Graph::Properties::RewriteBlackholing);
         } else if (name == "AllAliases") {
             vector<vector<NodeLabel>> canonical_names;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 boost::to_lower(v);
                 canonical_names.push_back(LabelUtils::StringToLabels(v));
             }
@@ -358,7 +358,7 @@ void Driver::SetJob(const json &user_job)
             } else {
                 Logger->error(fmt::format(
                     "driver.cpp (SetJob) - Skipping AlliAliases property check for {} as the Values is an empty list.",
-                    string(user_job["Domain"])));
+                    string(user_job.at("Domain"))));
             }
         } else if (name == "ZeroTTL") {
             auto la = [propertyTypes](
diff --git a/src/properties.cpp b/src/properties.cpp
index 0c61552..6fa5a4d 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -510,7 +510,7 @@ void interpretation::Graph::Properties::NumberOfHops(
             }
         }
     }
-    if (nameServers.size() > num_hops) {
+    if (static_cast<int>(nameServers.size()) > num_hops) {
         json tmp;
         tmp["Property"] = "Hops";
         tmp["Query"] = graph[p[0]].query.ToString();
-- 
2.43.0


From 74c02f801ab5fb0e5baee1454b7f495d4fa7db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 24/38] fix: a job without any record type read an empty answer

---
 src/driver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index ed34169..85bcf45 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -374,6 +374,10 @@ void Driver::SetJob(const json &user_job)
             current_job_.path_functions.push_back(interpretation::Graph::Properties::DNAMESubstitutionExceedesLength);
         }
     }
+    if (current_job_.types_req.none()) {
+        // A query has at least one type
+        current_job_.types_req.set(RRType::NS);
+    }
 }
 
 void Driver::SetJob(string &domain_name)
-- 
2.43.0


From ff887b43a68608acaa8e602b55fe0c3ff946d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 25/38] fix: exit with failure when the run ended in an
 exception

---
 bin/groot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/groot.cpp b/bin/groot.cpp
index 11baf0c..5c1f7ec 100644
--- a/bin/groot.cpp
+++ b/bin/groot.cpp
@@ -173,5 +173,6 @@ int main(int argc, const char **argv)
     } catch (exception &e) {
         cout << "Exception:- " << e.what() << endl;
         spdlog::shutdown();
+        return EXIT_FAILURE;
     }
 }
\ No newline at end of file
-- 
2.43.0


From e25f55da63248e32fc47fdddbecd2d898be73008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 26/38] fix: write reports on records that are not valid UTF-8

---
 src/driver.cpp | 3 ++-
 src/utils.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 85bcf45..8e82eea 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -464,7 +464,8 @@ void Driver::WriteViolationsToFile(string output_file) const
     for (const json &j : property_violations_) {
         if (c != 0)
             ofs << ",\n";
-        ofs << j.dump(4);
+        // Names and data of records need not be valid UTF-8
+        ofs << j.dump(4, ' ', false, json::error_handler_t::replace);
         c++;
     }
     ofs << "\n]";
diff --git a/src/utils.cpp b/src/utils.cpp
index cc97e85..7808ccb 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -205,7 +205,8 @@ void LintUtils::WriteIssueToFile(json &log_line, bool lint)
         std::ofstream out("lint.json", ios::app);
         if (i > 3)
             out << ",\n";
-        out << log_line.dump(4);
+        // Names and data of records need not be valid UTF-8
+        out << log_line.dump(4, ' ', false, json::error_handler_t::replace);
         out.close();
     }
 }
-- 
2.43.0


From ed6ceb65ca20b60de172602c863ec163831ce176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 27/38] fix: exit with failure when the output files cannot be
 written

---
 bin/groot.cpp  | 3 +++
 src/driver.cpp | 3 +++
 src/utils.cpp  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/bin/groot.cpp b/bin/groot.cpp
index 5c1f7ec..aa8366e 100644
--- a/bin/groot.cpp
+++ b/bin/groot.cpp
@@ -168,6 +168,9 @@ int main(int argc, const char **argv)
             fs.open("lint.json", ios::app);
             fs << "\n]";
             fs.close();
+            if (!fs) {
+                throw std::runtime_error("Unable to write lint.json");
+            }
         }
         return 0;
     } catch (exception &e) {
diff --git a/src/driver.cpp b/src/driver.cpp
index 8e82eea..347a02c 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -470,6 +470,9 @@ void Driver::WriteViolationsToFile(string output_file) const
     }
     ofs << "\n]";
     ofs.close();
+    if (!ofs) {
+        throw std::runtime_error("Unable to write the violations to " + output_file);
+    }
     Logger->debug(fmt::format("driver.cpp (WriteViolationsToFile) - Output written to {}", output_file));
 }
 
diff --git a/src/utils.cpp b/src/utils.cpp
index 7808ccb..4ae3768 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -208,6 +208,9 @@ void LintUtils::WriteIssueToFile(json &log_line, bool lint)
         // Names and data of records need not be valid UTF-8
         out << log_line.dump(4, ' ', false, json::error_handler_t::replace);
         out.close();
+        if (!out) {
+            throw std::runtime_error("Unable to write the issues to lint.json");
+        }
     }
 }
 
-- 
2.43.0


From 87e7c3fc5ad8cbdc950a62638bb99e3b0d6da3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 28/38] fix: structural check took glue for a delegation and
 the root zone for none

---
 src/label-graph.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index fbf3bc4..618b78d 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -200,11 +200,12 @@ void label::Graph::CheckStructuralDelegationConsistency(
                             std::get<0>(zoneId_vertexId_pair), boost::optional<vector<ResourceRecord>>{},
                             std::move(ns_records)));
                     }
-                } else {
+                } else if (ns_records.size()) {
                     // Parents issue: For a domain - dns.foo.com.ar. the records can come from multiple sources like
                     // from com.ar. (glue record), foo.com.ar. (delegation) and dns.foo.com.ar (SOA) In such cases we
                     // get multiple parents which should not be accounted for.
-                    if (longest_parent.size()) {
+                    // The parent may be the root zone, whose name has no labels.
+                    if (parents.size()) {
                         if (longest_parent == z.get_origin()) {
                             parents.push_back(std::make_tuple(
                                 std::get<0>(zoneId_vertexId_pair), z.LookUpGlueRecords(ns_records),
@@ -224,7 +225,8 @@ void label::Graph::CheckStructuralDelegationConsistency(
                 }
             } else {
                 Logger->critical(fmt::format("label-graph.cpp (CheckStructuralDelegationConsistency) - ZoneId {} not "
-                                             "found in the Name Server ZoneIds map"));
+                                             "found in the Name Server ZoneIds map",
+                                             std::get<0>(zoneId_vertexId_pair)));
                 exit(EXIT_FAILURE);
             }
         }
-- 
2.43.0


From b5d1f8820ad335535c2232400ba43ff5cf920dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 29/38] fix: structural check judged DNAME targets under the
 name of the alias

---
 src/label-graph.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 618b78d..cc98048 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -594,6 +594,11 @@ void label::Graph::GenerateECs(Job &current_job, const Context &context)
                         "label-graph.cpp (GenerateECs) - The global EC queue is non-empty for {}",
                         current_job.user_input_domain));
                 }
+                // The node of the domain itself, the others are reached through a DNAME and belong to another domain.
+                int index = 0;
+                vector<VertexDescriptor> without_map{};
+                VertexDescriptor domain_node = GetAncestor(root_, labels, without_map, index);
+                bool domain_exists = index == labels.size();
                 // EC producer threads
                 for (auto &encloser : closest_enclosers) {
                     ECproducers.push_back(thread([&]() {
@@ -601,7 +606,9 @@ void label::Graph::GenerateECs(Job &current_job, const Context &context)
                         std::vector<int16_t> visited_len(num_vertices(*this), -1);
                         SubDomainECGeneration(
                             encloser.first, parent_domain_name, false, current_job, context,
-                            current_job.check_structural_delegations, visited_len);
+                            current_job.check_structural_delegations && domain_exists &&
+                                encloser.first == domain_node,
+                            visited_len);
                     }));
                 }
                 for (auto &t : ECproducers) {
-- 
2.43.0


From 0153de55abd83af0e02aff219e733898ab5f9378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 30/38] fix: a top name server without zone files was taken to
 refuse queries

---
 src/interpretation-graph.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/interpretation-graph.cpp b/src/interpretation-graph.cpp
index 5ad931b..caf119a 100644
--- a/src/interpretation-graph.cpp
+++ b/src/interpretation-graph.cpp
@@ -461,9 +461,12 @@ void interpretation::Graph::StartFromTopNameservers(
             // QueryResolver"));
             QueryResolver(context.zoneId_to_zone.find(start.get())->second, node.get(), context);
         } else if (node && !start) {
+            // A server that hosts no zone files at all is unknown
+            bool known = context.nameserver_zoneIds_map.find(ns) != context.nameserver_zoneIds_map.end();
             vector<zone::LookUpAnswer> answer;
-            answer.push_back(
-                std::make_tuple(ReturnTag::REFUSED, (*this)[node.get()].query.rrTypes, vector<ResourceRecord>{}));
+            answer.push_back(std::make_tuple(
+                known ? ReturnTag::REFUSED : ReturnTag::NSNOTFOUND, (*this)[node.get()].query.rrTypes,
+                vector<ResourceRecord>{}));
             (*this)[node.get()].answer = answer;
             // Logger->debug(fmt::format("interpretation-graph (StartFromTopNameservers) No relevant zone found and
             // answer is updated to REFUSED"));
-- 
2.43.0


From 44ac9aaf99bb7e1e6dd3200d0967dfd39b44fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 31/38] fix: lint named the wrong record as the earlier DNAME

---
 src/zone-file-parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 882f33e..7f7769e 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -323,14 +323,19 @@ struct Parser {
                                         z[vertexid.get()].rrs[0].toString());
                                 } else if (code == zone::RRAddCode::DNAME_MULTIPLE) {
                                     mc.type_to_count["CNAME/DNAME Errors"]++;
+                                    // Other types may coexist with a DNAME
+                                    auto &rrs = z[vertexid.get()].rrs;
+                                    auto dname = std::find_if(rrs.begin(), rrs.end(), [](const ResourceRecord &r) {
+                                        return r.get_type() == RRType::DNAME;
+                                    });
                                     log_line = fmt::format(
                                         "zone-file-parser.cpp (Parser()) - |{}| record exists but trying to add "
                                         "another DNAME "
                                         "record |{}| from line {} in file {}",
-                                        z[vertexid.get()].rrs[0].toString(), RR.toString(), l, mc.file_name);
+                                        dname->toString(), RR.toString(), l, mc.file_name);
                                     LintUtils::WriteRRIssueToFile(
                                         mc.lint, mc.file_name, l, RR.toString(), "MULTIPLE DNAMEs",
-                                        z[vertexid.get()].rrs[0].toString());
+                                        dname->toString());
                                 }
                                 if (log_line.length()) {
                                     Logger->debug(log_line);
-- 
2.43.0


From e21a40a50a208a550e954debeac2d7541520da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 32/38] fix: delegation checks mixed a query with its rewrite
 of the same name

---
 src/properties.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/properties.cpp b/src/properties.cpp
index 6fa5a4d..cb6d6bb 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -335,6 +335,10 @@ void interpretation::Graph::Properties::CheckDelegationConsistency(
             const EC &query = graph[p[0]].query;
             int parentIndex = -1;
             for (int i = 0; i < p.size(); i++) {
+                if (graph[p[i]].answer && std::get<0>(graph[p[i]].answer.get()[0]) == ReturnTag::REWRITE) {
+                    // The rest of the path is about another query, even if that has the same name
+                    break;
+                }
                 if (graph[p[i]].answer && std::get<0>(graph[p[i]].answer.get()[0]) == ReturnTag::REF) {
                     // Parent found
                     if (i < p.size() - 1 && graph[p[static_cast<long long>(i) + 1]].answer) {
@@ -420,6 +424,10 @@ void interpretation::Graph::Properties::CheckLameDelegation(
             const EC &query = graph[p[0]].query;
             int parentIndex = -1;
             for (int i = 0; i < p.size(); i++) {
+                if (graph[p[i]].answer && std::get<0>(graph[p[i]].answer.get()[0]) == ReturnTag::REWRITE) {
+                    // The rest of the path is about another query, even if that has the same name
+                    break;
+                }
                 if (graph[p[i]].answer && std::get<0>(graph[p[i]].answer.get()[0]) == ReturnTag::REF) {
                     // Parent found
                     if (i < p.size() - 1 && graph[p[static_cast<long long>(i) + 1]].answer) {
-- 
2.43.0


From 2db5051911c258c60acaf38a4bf619c69691d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 33/38] fix: response value took the glue of NS records for
 data of the query

---
 src/properties.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index cb6d6bb..cc5aca1 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -107,8 +107,10 @@ void interpretation::Graph::Properties::CheckResponseValue(
             if (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::ANS ||
                 std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE) {
                 set<string> rdatas;
-                for (auto rr : std::get<2>(graph[vd].answer.get()[0])) {
-                    if (types_requested[rr.get_type()] == 1) {
+                const vector<ResourceRecord> &rrs = std::get<2>(graph[vd].answer.get()[0]);
+                for (auto rr : rrs) {
+                    // Glue that comes with NS records has another owner than the records that answer the query
+                    if (types_requested[rr.get_type()] == 1 && rr.get_name() == rrs[0].get_name()) {
                         rdatas.insert(rr.get_rdata());
                     }
                 }
-- 
2.43.0


From b7286f9ca3d30e52ed4a8c6b1b500a6ebcca360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 34/38] fix: Hops and Rewrites bounds that do not fit into an
 int were undefined

---
 src/driver.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 347a02c..9163005 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -209,6 +209,19 @@ long Driver::SetContext(const json &metadata, string directory, bool lint)
     return rr_count;
 }
 
+// The bound of a property, which has to be a number that fits into an int.
+static int GetBound(const json &property)
+{
+    const json &value = property.at("Value");
+    if (value.is_number()) {
+        double number = value.get<double>();
+        if (!(number >= std::numeric_limits<int>::min() && number <= std::numeric_limits<int>::max())) {
+            throw std::out_of_range("The value of " + string(property.at("PropertyName")) + " is out of range");
+        }
+    }
+    return value.get<int>();
+}
+
 void Driver::SetJob(const json &user_job)
 {
     string d = string(user_job.at("Domain"));
@@ -272,14 +285,14 @@ void Driver::SetJob(const json &user_job)
                     string(user_job.at("Domain"))));
             }
         } else if (name == "Hops") {
-            auto l = [num_hops = property.at("Value").get<int>()](
+            auto l = [num_hops = GetBound(property)](
                          const interpretation::Graph &graph, const interpretation::Graph::Path &p,
                          moodycamel::ConcurrentQueue<json> &json_queue) {
                 interpretation::Graph::Properties::NumberOfHops(graph, p, json_queue, num_hops);
             };
             current_job_.path_functions.push_back(l);
         } else if (name == "Rewrites") {
-            auto l = [num_rewrites = property.at("Value").get<int>()](
+            auto l = [num_rewrites = GetBound(property)](
                          const interpretation::Graph &graph, const interpretation::Graph::Path &p,
                          moodycamel::ConcurrentQueue<json> &json_queue) {
                 interpretation::Graph::Properties::NumberOfRewrites(graph, p, json_queue, num_rewrites);
-- 
2.43.0


From 2e8c493d97e8286c8680f25a462ea011594dfca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:21 +0000
Subject: [PATCH 35/38] fix: query classes missed names behind chained DNAMEs

The target of a DNAME may lie below the owner of another DNAME. Names that exist only after both substitutions had no
query class and were covered by the class of non-existent names, which resolves differently.
---
 src/label-graph.cpp | 58 ++++++++++++++++++++++++++++++++-------------
 src/label-graph.h   |  4 ++++
 2 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index cc98048..f2ff1d5 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -104,6 +104,44 @@ label::Graph::VertexDescriptor label::Graph::AddNodes(
     return closest_encloser;
 }
 
+bool label::Graph::AddDNAMEEdge(VertexDescriptor owner, VertexDescriptor target)
+{
+    // Check if DNAME edge was added due to another zone file
+    for (const EdgeDescriptor &edge : boost::make_iterator_range(out_edges(owner, *this))) {
+        if (edge.m_target == target && (*this)[edge].type == dname) {
+            return false;
+        }
+    }
+    EdgeDescriptor e;
+    bool b;
+    boost::tie(e, b) = boost::add_edge(owner, target, *this);
+    if (!b) {
+        Logger->critical(fmt::format("label-graph.cpp (AddDNAMEEdge) - Unable to add edge to label graph"));
+        exit(EXIT_FAILURE);
+    }
+    (*this)[e].type = dname;
+    return true;
+}
+
+void label::Graph::FollowChainedDNAMEs()
+{
+    /*
+        The target of a DNAME may itself lie below the owner of another DNAME. Such a target also stands for the node it
+        is rewritten to, so the owner is connected with that node too, until there is nothing left to add.
+    */
+    bool added = true;
+    while (added) {
+        added = false;
+        for (auto &[owner, target] : dname_targets_) {
+            for (auto &encloser : ClosestEnclosers(target)) {
+                if (encloser.second == target.size() && AddDNAMEEdge(owner, encloser.first)) {
+                    added = true;
+                }
+            }
+        }
+    }
+}
+
 void label::Graph::AddResourceRecord(
     const ResourceRecord &record,
     const int &zoneId,
@@ -126,23 +164,8 @@ void label::Graph::AddResourceRecord(
             ConstructChildLabelsToVertexDescriptorMap(v);
         }
         VertexDescriptor second_node = AddNodes(closest_encloser, labels, index);
-        // Check if DNAME edge was added due to another zone file
-        bool duplicate = false;
-        for (const EdgeDescriptor& edge : boost::make_iterator_range(out_edges(main_node, *this))) {
-            if (edge.m_target == second_node && (*this)[edge].type == dname) {
-                duplicate = true;
-            }
-        }
-        if (!duplicate) {
-            EdgeDescriptor e;
-            bool b;
-            boost::tie(e, b) = boost::add_edge(main_node, second_node, *this);
-            if (!b) {
-                Logger->critical(
-                    fmt::format("label-graph.cpp (AddResourceRecord) - Unable to add edge to label graph"));
-                exit(EXIT_FAILURE);
-            }
-            (*this)[e].type = dname;
+        if (AddDNAMEEdge(main_node, second_node)) {
+            dname_targets_.push_back({main_node, std::move(labels)});
         }
     }
     auto it = std::find_if(
@@ -571,6 +594,7 @@ void label::Graph::GenerateECs(Job &current_job, const Context &context)
     if (!std::get<0>(LabelUtils::LengthCheck(labels, 2))) {
         return;
     }
+    FollowChainedDNAMEs();
     vector<ClosestNode> closest_enclosers = ClosestEnclosers(labels);
     if (closest_enclosers.size()) {
         // cross-check
diff --git a/src/label-graph.h b/src/label-graph.h
index 0275381..99c12f0 100644
--- a/src/label-graph.h
+++ b/src/label-graph.h
@@ -100,7 +100,10 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::dire
 
     boost::unordered_map<VertexDescriptor, LabelToVertex> vertex_to_child_map_;
     VertexDescriptor root_ = 0;
+    // The DNAME records: the node of the owner and the name of the target.
+    vector<std::pair<VertexDescriptor, vector<NodeLabel>>> dname_targets_;
 
+    bool AddDNAMEEdge(VertexDescriptor, VertexDescriptor);
     VertexDescriptor AddNodes(VertexDescriptor, const vector<NodeLabel> &, int &);
     void CompareParentChildDelegationRecords(
         const std::vector<ZoneIdGlueNSRecords> &,
@@ -117,6 +120,7 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::dire
         string,
         string,
         string) const;
+    void FollowChainedDNAMEs();
     VertexDescriptor GetAncestor(VertexDescriptor, const vector<NodeLabel> &, vector<VertexDescriptor> &, int &index)
         const;
     // string GetHostingNameServer(int, const Context &) const;
-- 
2.43.0


From 044f967629257ad374a7190b7a81eaffc726397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:45 +0000
Subject: [PATCH 36/38] fix: chained DNAMEs no longer close cycles in the label
 graph

The edges added for chained DNAMEs could lead back to a node above their owner, which made the number of names to check
grow exponentially. Such edges are left out.
---
 src/label-graph.cpp | 39 +++++++++++++++++++++++++++++++++++++++
 src/label-graph.h   |  1 +
 2 files changed, 40 insertions(+)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index f2ff1d5..60a67f8 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -129,17 +129,56 @@ void label::Graph::FollowChainedDNAMEs()
         The target of a DNAME may itself lie below the owner of another DNAME. Such a target also stands for the node it
         is rewritten to, so the owner is connected with that node too, until there is nothing left to add.
     */
+    vector<std::pair<VertexDescriptor, VertexDescriptor>> added_edges;
     bool added = true;
     while (added) {
         added = false;
         for (auto &[owner, target] : dname_targets_) {
             for (auto &encloser : ClosestEnclosers(target)) {
                 if (encloser.second == target.size() && AddDNAMEEdge(owner, encloser.first)) {
+                    added_edges.push_back({owner, encloser.first});
                     added = true;
                 }
             }
         }
     }
+    /*
+        An edge back to a node from which the owner is reached stands for names without end, whose number may grow
+        exponentially with their length.
+    */
+    vector<std::pair<VertexDescriptor, VertexDescriptor>> cycle_edges;
+    for (auto &edge : added_edges) {
+        if (Reachable(edge.second, edge.first)) {
+            cycle_edges.push_back(edge);
+        }
+    }
+    for (auto &[owner, target] : cycle_edges) {
+        boost::remove_out_edge_if(
+            owner,
+            [this, t = target](const EdgeDescriptor &e) { return e.m_target == t && (*this)[e].type == dname; },
+            *this);
+    }
+}
+
+bool label::Graph::Reachable(VertexDescriptor from, VertexDescriptor to) const
+{
+    vector<bool> seen(num_vertices(*this), false);
+    vector<VertexDescriptor> todo{from};
+    seen[from] = true;
+    while (!todo.empty()) {
+        VertexDescriptor v = todo.back();
+        todo.pop_back();
+        if (v == to) {
+            return true;
+        }
+        for (const EdgeDescriptor &edge : boost::make_iterator_range(out_edges(v, *this))) {
+            if (!seen[edge.m_target]) {
+                seen[edge.m_target] = true;
+                todo.push_back(edge.m_target);
+            }
+        }
+    }
+    return false;
 }
 
 void label::Graph::AddResourceRecord(
diff --git a/src/label-graph.h b/src/label-graph.h
index 99c12f0..4105ceb 100644
--- a/src/label-graph.h
+++ b/src/label-graph.h
@@ -121,6 +121,7 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::dire
         string,
         string) const;
     void FollowChainedDNAMEs();
+    bool Reachable(VertexDescriptor, VertexDescriptor) const;
     VertexDescriptor GetAncestor(VertexDescriptor, const vector<NodeLabel> &, vector<VertexDescriptor> &, int &index)
         const;
     // string GetHostingNameServer(int, const Context &) const;
-- 
2.43.0


From 1a014e815fd2be85b261329fb42c503bce9c9296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:22 +0000
Subject: [PATCH 37/38] fix: an escaped backslash before a dot does not escape
 the dot, escaped characters count once

---
 src/label-graph.cpp      |  4 ++--
 src/utils.cpp            | 45 +++++++++++++++++++++++++++++++---------
 src/utils.h              |  2 ++
 src/zone-file-parser.cpp |  2 +-
 4 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 60a67f8..b32a4ff 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -529,7 +529,7 @@ void label::Graph::SubDomainECGeneration(
 {
     size_t len = 0;
     for (NodeLabel &l : parent_domain_name) {
-        len += l.get().length() + 1;
+        len += LabelUtils::LabelLength(l) + 1;
     }
     if (len > kMaxDomainLength || (len == visited_len[start] && skipLabel)) {
         //return if length exceedes or DNAME loop detected 
@@ -551,7 +551,7 @@ void label::Graph::SubDomainECGeneration(
     int16_t beforeLen = visited_len[start];
     size_t nodeLen = 0;
     for (NodeLabel &l : name) {
-        nodeLen += l.get().length() + 1;
+        nodeLen += LabelUtils::LabelLength(l) + 1;
     }
     if (nodeLen > kMaxDomainLength) {
         return;
diff --git a/src/utils.cpp b/src/utils.cpp
index 4ae3768..5cb4501 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -24,11 +24,25 @@ string LabelUtils::LabelsToString(vector<vector<NodeLabel>> domains)
     return result + "]";
 }
 
+size_t LabelUtils::LabelLength(const NodeLabel &label)
+{
+    // An escaped character counts once.
+    const string text = label.get();
+    size_t length = 0;
+    for (size_t i = 0; i < text.length(); i++) {
+        if (text[i] == '\\' && i + 1 < text.length()) {
+            i++;
+        }
+        length++;
+    }
+    return length;
+}
+
 tuple<bool, string> LabelUtils::LengthCheck(vector<NodeLabel> domain_labels, int level)
 {
     int length = 0;
     for (NodeLabel &l : domain_labels) {
-        if (l.get().length() > kMaxLabelLength) {
+        if (LabelLength(l) > kMaxLabelLength) {
             if (level == 2) {
                 Logger->warn(fmt::format(
                     "label-graph.cpp (GenerateECs) - Userinput, {}, has a label, {}, exceedeing the valid label length",
@@ -36,7 +50,7 @@ tuple<bool, string> LabelUtils::LengthCheck(vector<NodeLabel> domain_labels, int
             }
             return {false, l.get()};
         }
-        length += l.get().length() + 1;
+        length += LabelLength(l) + 1;
     }
     if (length > kMaxDomainLength) {
         if (level == 2) {
@@ -49,27 +63,38 @@ tuple<bool, string> LabelUtils::LengthCheck(vector<NodeLabel> domain_labels, int
     return {true, ""};
 }
 
+bool LabelUtils::EndsWithUnescapedDot(const string &name)
+{
+    if (name.empty() || name.back() != '.') {
+        return false;
+    }
+    // The dot is part of the last label if a backslash that is not itself escaped precedes it.
+    size_t backslashes = 0;
+    while (backslashes + 1 < name.length() && name[name.length() - 2 - backslashes] == '\\') {
+        backslashes++;
+    }
+    return backslashes % 2 == 0;
+}
+
 vector<NodeLabel> LabelUtils::StringToLabels(string domain_name)
 {
     vector<NodeLabel> tokens;
     if (domain_name.length() == 0) {
         return tokens;
     }
-    if (domain_name[domain_name.length() - 1] != '.') {
+    if (!EndsWithUnescapedDot(domain_name)) {
         domain_name += ".";
     }
     // boost::algorithm::split(labels, name, boost::is_any_of(".")); // Avoiding this for the case where . is written
     // with \. and root zone.
     string previous = "";
+    bool escaped = false;
     for (auto it = domain_name.begin(); it < domain_name.end(); ++it) {
-        if (*it == '.' && previous.length() > 0) {
-            if (previous.back() == '\\') {
-                previous += *it;
-            } else {
-                tokens.push_back(std::move(previous));
-                previous = "";
-            }
+        if (*it == '.' && previous.length() > 0 && !escaped) {
+            tokens.push_back(std::move(previous));
+            previous = "";
         } else {
+            escaped = !escaped && *it == '\\';
             previous += *it;
         }
     }
diff --git a/src/utils.h b/src/utils.h
index 25b7ff2..4ce047f 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -11,6 +11,8 @@ class LabelUtils
     static string LabelsToString(vector<NodeLabel>);
     static string LabelsToString(vector<vector<NodeLabel>>);
     static tuple<bool, string> LengthCheck(vector<NodeLabel>, int);
+    static size_t LabelLength(const NodeLabel &);
+    static bool EndsWithUnescapedDot(const string &);
     static vector<NodeLabel> StringToLabels(string);
     static bool SubDomainCheck(const vector<NodeLabel> &, const vector<NodeLabel> &);
     static bool SubDomainCheck(const vector<vector<NodeLabel>> &, const vector<NodeLabel> &);
diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 7f7769e..a706725 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -47,7 +47,7 @@ static string FullyQualify(const string &name, const string &origin)
     if (name == "@") {
         return origin;
     }
-    if (boost::algorithm::ends_with(name, ".") && !boost::algorithm::ends_with(name, "\\.")) {
+    if (LabelUtils::EndsWithUnescapedDot(name)) {
         return name;
     }
     return origin == "." ? name + "." : name + "." + origin;
-- 
2.43.0


From f3382a5e3dcb213410e01d374cbed3b2b32f49cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:22 +0000
Subject: [PATCH 38/38] fix: a top name server that is listed twice is followed
 once

---
 src/driver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 9163005..5a80c1e 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -180,7 +180,11 @@ long Driver::SetContext(const json &metadata, string directory, bool lint)
     for (auto &server : metadata["TopNameServers"]) {
         string s = string(server);
         boost::to_lower(s);
-        context_.top_nameservers.push_back(s);
+        // Following a server that is listed again would repeat every execution, at each restart from the top
+        if (std::find(context_.top_nameservers.begin(), context_.top_nameservers.end(), s) ==
+            context_.top_nameservers.end()) {
+            context_.top_nameservers.push_back(s);
+        }
     }
     long rr_count = 0;
     for (auto &zone_json : metadata["ZoneFiles"]) {
-- 
2.43.0

