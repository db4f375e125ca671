From ae8e494bd038cfd0937b5ad3b6b5850510ba72ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 01/27] fix: don't read an option's separate value a second
 time

OptionIterator::next_value left the position at the end of the value,
so the next call of next_value returned an empty string from the same
token (slash and dash style), e.g. after an option of type LAST_OPTION.
---
 single_src/Argos/Argos.cpp   | 2 +-
 src/Argos/OptionIterator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 071cdaa..b16d2ab 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4522,7 +4522,7 @@ namespace argos
             return {};
         }
 
-        m_pos = m_args[0].size();
+        m_pos = std::string_view::npos;
         return std::string(m_args[0]);
     }
 
diff --git a/src/Argos/OptionIterator.cpp b/src/Argos/OptionIterator.cpp
index 27b0d71..2866430 100644
--- a/src/Argos/OptionIterator.cpp
+++ b/src/Argos/OptionIterator.cpp
@@ -78,7 +78,7 @@ namespace argos
             return {};
         }
 
-        m_pos = m_args[0].size();
+        m_pos = std::string_view::npos;
         return std::string(m_args[0]);
     }
 
-- 
2.43.0


From e3f98d5ab86bfdf3970dc62f3ad2c3c80e1faf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:11 +0000
Subject: [PATCH 02/27] fix: accept missing values for several optional
 arguments

ArgumentCounter::is_complete compared counter indexes, so a command with
two or more optional arguments, such as [A] [B] or A [B] [C], failed with
"Too few arguments" unless all but one of them were given. It now checks
that every argument has received its minimum.
---
 single_src/Argos/Argos.cpp    | 52 +++++++++--------------------------
 src/Argos/ArgumentCounter.cpp | 49 ++++++++-------------------------
 src/Argos/ArgumentCounter.hpp |  3 +-
 3 files changed, 26 insertions(+), 78 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index b16d2ab..fbcabc6 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -378,8 +378,9 @@ namespace argos
     private:
         using Counter = std::pair<size_t, const ArgumentData*>;
         std::vector<Counter> m_counters;
+        /// The number of values each argument in m_counters has received.
+        std::vector<size_t> m_given;
         size_t m_index = 0;
-        size_t m_first_optional = 0;
         size_t m_counter = 0;
     };
 }
@@ -396,39 +397,6 @@ namespace argos
 {
     namespace
     {
-        size_t find_first_optional(const CommandData& command)
-        {
-            auto& arguments = command.arguments;
-            size_t result = 0;
-            for (size_t i = 0; i < arguments.size(); ++i)
-            {
-                if (arguments[i]->min_count > 0)
-                    result = i + 1;
-            }
-            return result;
-        }
-
-        void make_argument_counters(
-            const CommandData& command,
-            std::vector<std::pair<size_t, const ArgumentData*>>& counters,
-            size_t& first_optional)
-        {
-            first_optional = find_first_optional(command);
-            for (size_t i = 0; i < command.arguments.size(); ++i)
-            {
-                auto& a = command.arguments[i];
-                if (i + 1 == first_optional && a->min_count != a->max_count)
-                {
-                    counters.emplace_back(a->min_count, a.get());
-                    counters.emplace_back(a->max_count - a->min_count, a.get());
-                }
-                else
-                {
-                    counters.emplace_back(a->max_count, a.get());
-                }
-            }
-        }
-
         std::vector<std::pair<size_t, const ArgumentData*>>
         make_argument_counters(const CommandData& command,
                                size_t n)
@@ -469,15 +437,17 @@ namespace argos
     }
 
     ArgumentCounter::ArgumentCounter(const CommandData& command)
+        : m_given(command.arguments.size())
     {
-        make_argument_counters(command, m_counters, m_first_optional);
+        for (const auto& a : command.arguments)
+            m_counters.emplace_back(a->max_count, a.get());
     }
 
     ArgumentCounter::ArgumentCounter(const CommandData& command,
                                      size_t argument_count,
                                      size_t initial_count)
         : m_counters(make_argument_counters(command, argument_count)),
-          m_first_optional(m_counters.size())
+          m_given(m_counters.size())
     {
         for (size_t i = 0; i < initial_count; ++i)
         {
@@ -495,6 +465,7 @@ namespace argos
             return nullptr;
 
         ++m_counter;
+        ++m_given[m_index];
         --m_counters[m_index].first;
         return m_counters[m_index].second;
     }
@@ -506,9 +477,12 @@ namespace argos
 
     bool ArgumentCounter::is_complete() const
     {
-        return m_index >= m_first_optional
-               || (m_index + 1 == m_first_optional
-                   && m_counters[m_index].first == 0);
+        for (size_t i = 0; i < m_counters.size(); ++i)
+        {
+            if (m_given[i] < m_counters[i].second->min_count)
+                return false;
+        }
+        return true;
     }
 
     std::pair<size_t, size_t>
diff --git a/src/Argos/ArgumentCounter.cpp b/src/Argos/ArgumentCounter.cpp
index de1616c..725738d 100644
--- a/src/Argos/ArgumentCounter.cpp
+++ b/src/Argos/ArgumentCounter.cpp
@@ -11,39 +11,6 @@ namespace argos
 {
     namespace
     {
-        size_t find_first_optional(const CommandData& command)
-        {
-            auto& arguments = command.arguments;
-            size_t result = 0;
-            for (size_t i = 0; i < arguments.size(); ++i)
-            {
-                if (arguments[i]->min_count > 0)
-                    result = i + 1;
-            }
-            return result;
-        }
-
-        void make_argument_counters(
-            const CommandData& command,
-            std::vector<std::pair<size_t, const ArgumentData*>>& counters,
-            size_t& first_optional)
-        {
-            first_optional = find_first_optional(command);
-            for (size_t i = 0; i < command.arguments.size(); ++i)
-            {
-                auto& a = command.arguments[i];
-                if (i + 1 == first_optional && a->min_count != a->max_count)
-                {
-                    counters.emplace_back(a->min_count, a.get());
-                    counters.emplace_back(a->max_count - a->min_count, a.get());
-                }
-                else
-                {
-                    counters.emplace_back(a->max_count, a.get());
-                }
-            }
-        }
-
         std::vector<std::pair<size_t, const ArgumentData*>>
         make_argument_counters(const CommandData& command,
                                size_t n)
@@ -84,15 +51,17 @@ namespace argos
     }
 
     ArgumentCounter::ArgumentCounter(const CommandData& command)
+        : m_given(command.arguments.size())
     {
-        make_argument_counters(command, m_counters, m_first_optional);
+        for (const auto& a : command.arguments)
+            m_counters.emplace_back(a->max_count, a.get());
     }
 
     ArgumentCounter::ArgumentCounter(const CommandData& command,
                                      size_t argument_count,
                                      size_t initial_count)
         : m_counters(make_argument_counters(command, argument_count)),
-          m_first_optional(m_counters.size())
+          m_given(m_counters.size())
     {
         for (size_t i = 0; i < initial_count; ++i)
         {
@@ -110,6 +79,7 @@ namespace argos
             return nullptr;
 
         ++m_counter;
+        ++m_given[m_index];
         --m_counters[m_index].first;
         return m_counters[m_index].second;
     }
@@ -121,9 +91,12 @@ namespace argos
 
     bool ArgumentCounter::is_complete() const
     {
-        return m_index >= m_first_optional
-               || (m_index + 1 == m_first_optional
-                   && m_counters[m_index].first == 0);
+        for (size_t i = 0; i < m_counters.size(); ++i)
+        {
+            if (m_given[i] < m_counters[i].second->min_count)
+                return false;
+        }
+        return true;
     }
 
     std::pair<size_t, size_t>
diff --git a/src/Argos/ArgumentCounter.hpp b/src/Argos/ArgumentCounter.hpp
index bcf71fd..82a490d 100644
--- a/src/Argos/ArgumentCounter.hpp
+++ b/src/Argos/ArgumentCounter.hpp
@@ -37,8 +37,9 @@ namespace argos
     private:
         using Counter = std::pair<size_t, const ArgumentData*>;
         std::vector<Counter> m_counters;
+        /// The number of values each argument in m_counters has received.
+        std::vector<size_t> m_given;
         size_t m_index = 0;
-        size_t m_first_optional = 0;
         size_t m_counter = 0;
     };
 }
-- 
2.43.0


From 54632f3c10af9f493d2b89b584475b964e8f4142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 03/27] fix: count upcoming argument values the way they are
 processed

The number of values that decides how many each argument gets was wrong
when the command line had a NONE, CLEAR or constant option with an
argument name, an option of type EXIT, a positional value that matches a
flag, option-like values after an option of type LAST_OPTION, or the name
of a sibling command. When a callback inserted arguments, the recount
could also give an argument more values than its maximum.
---
 single_src/Argos/Argos.cpp         | 191 ++++++++++++++---------------
 src/Argos/ArgumentCounter.cpp      |  86 +++++++------
 src/Argos/ArgumentCounter.hpp      |  10 +-
 src/Argos/ArgumentIteratorImpl.cpp |  91 +++++++-------
 src/Argos/ArgumentIteratorImpl.hpp |   2 +-
 5 files changed, 186 insertions(+), 194 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index fbcabc6..7d6ec56 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -360,12 +360,16 @@ namespace argos
 
         explicit ArgumentCounter(const CommandData& command);
 
-        ArgumentCounter(const CommandData& command,
-                        size_t argument_count,
-                        size_t initial_count = 0);
+        ArgumentCounter(const CommandData& command, size_t argument_count);
 
         const ArgumentData* next_argument();
 
+        /**
+         * Distributes @a argument_count more values among the argument that
+         * received the most recent value and those that follow it.
+         */
+        void redistribute(size_t argument_count);
+
         [[nodiscard]] size_t count() const;
 
         [[nodiscard]] bool is_complete() const;
@@ -393,44 +397,10 @@ namespace argos
 // License text is included with the source distribution.
 //****************************************************************************
 
+#include <algorithm>
+
 namespace argos
 {
-    namespace
-    {
-        std::vector<std::pair<size_t, const ArgumentData*>>
-        make_argument_counters(const CommandData& command,
-                               size_t n)
-        {
-            const auto [lo, hi] = ArgumentCounter::get_min_max_count(command);
-            if (n < lo)
-                n = 0;
-            else if (n > hi)
-                n = hi - lo;
-            else
-                n -= lo;
-
-            std::vector<std::pair<size_t, const ArgumentData*>> result;
-            for (auto& arg : command.arguments)
-            {
-                if (n == 0 || arg->min_count == arg->max_count)
-                {
-                    result.emplace_back(arg->min_count, arg.get());
-                }
-                else if (arg->min_count + n <= arg->max_count)
-                {
-                    result.emplace_back(arg->min_count + n, arg.get());
-                    n = 0;
-                }
-                else
-                {
-                    result.emplace_back(arg->max_count, arg.get());
-                    n -= arg->max_count - arg->min_count;
-                }
-            }
-            return result;
-        }
-    }
-
     ArgumentCounter::ArgumentCounter()
         : m_counters()
     {
@@ -444,16 +414,10 @@ namespace argos
     }
 
     ArgumentCounter::ArgumentCounter(const CommandData& command,
-                                     size_t argument_count,
-                                     size_t initial_count)
-        : m_counters(make_argument_counters(command, argument_count)),
-          m_given(m_counters.size())
+                                     size_t argument_count)
+        : ArgumentCounter(command)
     {
-        for (size_t i = 0; i < initial_count; ++i)
-        {
-            if (next_argument() == nullptr)
-                break;
-        }
+        redistribute(argument_count);
     }
 
     const ArgumentData* ArgumentCounter::next_argument()
@@ -470,6 +434,42 @@ namespace argos
         return m_counters[m_index].second;
     }
 
+    void ArgumentCounter::redistribute(size_t argument_count)
+    {
+        // Arguments before the one that received the most recent value
+        // can't receive any more.
+        size_t first = m_counters.size();
+        while (first > 0 && m_given[first - 1] == 0)
+            --first;
+        if (first > 0)
+            --first;
+
+        std::vector<size_t> missing(m_counters.size());
+        size_t total_missing = 0;
+        for (size_t i = first; i < m_counters.size(); ++i)
+        {
+            const size_t min_count = m_counters[i].second->min_count;
+            missing[i] = min_count - std::min(min_count, m_given[i]);
+            total_missing += missing[i];
+        }
+
+        auto extra = argument_count - std::min(argument_count, total_missing);
+        for (size_t i = 0; i < m_counters.size(); ++i)
+        {
+            auto& [n, arg] = m_counters[i];
+            if (i < first)
+            {
+                n = 0;
+                continue;
+            }
+            const auto room = arg->max_count - m_given[i] - missing[i];
+            const auto more = std::min(extra, room);
+            n = missing[i] + more;
+            extra -= more;
+        }
+        m_index = first;
+    }
+
     size_t ArgumentCounter::count() const
     {
         return m_counter;
@@ -1020,7 +1020,7 @@ namespace argos
 
         void copy_remaining_arguments_to_parser_result();
 
-        [[nodiscard]] size_t count_arguments() const;
+        [[nodiscard]] size_t count_arguments(size_t given_count = 0) const;
 
         bool check_argument_and_option_counts();
 
@@ -1221,8 +1221,6 @@ namespace argos
 // License text is included with the source distribution.
 //****************************************************************************
 
-#include <algorithm>
-
 namespace argos
 {
     namespace
@@ -1235,6 +1233,14 @@ namespace argos
             return s[0] == (style == OptionStyle::SLASH ? '/' : '-');
         }
 
+        /** True if processing @a option reads a value from the command line. */
+        bool consumes_value(const OptionData& option)
+        {
+            return option.constant.empty()
+                   && (option.operation == OptionOperation::ASSIGN
+                       || option.operation == OptionOperation::APPEND);
+        }
+
         std::variant<OptionIterator, StandardOptionIterator>
         make_option_iterator(OptionStyle style,
                              std::vector<std::string_view> args)
@@ -1532,6 +1538,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        m_state = State::ARGUMENTS_AND_OPTIONS;
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -1541,7 +1548,6 @@ namespace argos
             m_argument_counter = ArgumentCounter(*m_command,
                                                  count_arguments());
         }
-        m_state = State::ARGUMENTS_AND_OPTIONS;
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
@@ -1553,62 +1559,53 @@ namespace argos
             parsed_args.add_unprocessed_argument(std::string(str));
     }
 
-    size_t ArgumentIteratorImpl::count_arguments() const
+    size_t ArgumentIteratorImpl::count_arguments(size_t given_count) const
     {
         size_t result = 0;
         auto it = m_iterator;
-        auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
-        for (auto arg = it.next(); arg; arg = it.next())
+        const auto min_count = ArgumentCounter::get_min_max_count(*m_command).first;
+        const auto& settings = m_data->parser_settings;
+        const auto parent_index = find_first_multi_command_parent();
+        bool arguments_only = m_state == State::ARGUMENTS_ONLY;
+        while (const auto arg = arguments_only ? it.next_value() : it.next())
         {
-            const OptionData* option = m_command->find_option(
-                *arg,
-                m_data->parser_settings.allow_abbreviated_options,
-                m_data->parser_settings.case_insensitive);
-
-            if (option)
+            if (arguments_only || !is_option(*arg, settings.option_style))
             {
-                if (!option->argument.empty())
-                    it.next_value();
-
-                bool arguments_only = false;
-
-                switch (option->type)
+                if (given_count + result >= min_count
+                    && parent_index
+                    && m_parsed_args[*parent_index]->command()->find_command(
+                        *arg, settings.case_insensitive))
                 {
-                case OptionType::HELP:
-                case OptionType::LAST_ARGUMENT:
-                case OptionType::STOP:
                     return result;
-                case OptionType::LAST_OPTION:
-                    arguments_only = true;
-                    break;
-                default:
-                    break;
                 }
 
-                if (arguments_only)
-                    break;
-            }
-            else if (!is_option(*arg, m_data->parser_settings.option_style))
-            {
-                if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
-                    return result;
-
-                if (result >= min_count && find_sibling_command(*arg).first)
-                    return result;
-
                 ++result;
+                continue;
             }
-        }
 
-        for (auto arg = it.next_value(); arg; arg = it.next_value())
-        {
-            if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
-                return result;
+            const auto* option = m_command->find_option(
+                *arg,
+                settings.allow_abbreviated_options,
+                settings.case_insensitive);
+            if (!option)
+                continue;
 
-            if (result >= min_count && find_sibling_command(*arg).first)
-                return result;
+            if (consumes_value(*option))
+                it.next_value();
 
-            ++result;
+            switch (option->type)
+            {
+            case OptionType::HELP:
+            case OptionType::STOP:
+            case OptionType::EXIT:
+            case OptionType::LAST_ARGUMENT:
+                return result;
+            case OptionType::LAST_OPTION:
+                arguments_only = true;
+                break;
+            case OptionType::NORMAL:
+                break;
+            }
         }
         return result;
     }
@@ -1697,10 +1694,8 @@ namespace argos
         if (!ArgumentCounter::requires_argument_count(*m_command))
             return;
 
-        auto current_count = m_argument_counter.count();
-        auto total_count = current_count + count_arguments();
-        m_argument_counter = ArgumentCounter(*m_command, total_count,
-                                             current_count);
+        m_argument_counter.redistribute(
+            count_arguments(m_argument_counter.count()));
     }
 
     void ArgumentIteratorImpl::error(const std::string& message)
diff --git a/src/Argos/ArgumentCounter.cpp b/src/Argos/ArgumentCounter.cpp
index 725738d..e9abbc7 100644
--- a/src/Argos/ArgumentCounter.cpp
+++ b/src/Argos/ArgumentCounter.cpp
@@ -7,44 +7,10 @@
 //****************************************************************************
 #include "ArgumentCounter.hpp"
 
+#include <algorithm>
+
 namespace argos
 {
-    namespace
-    {
-        std::vector<std::pair<size_t, const ArgumentData*>>
-        make_argument_counters(const CommandData& command,
-                               size_t n)
-        {
-            const auto [lo, hi] = ArgumentCounter::get_min_max_count(command);
-            if (n < lo)
-                n = 0;
-            else if (n > hi)
-                n = hi - lo;
-            else
-                n -= lo;
-
-            std::vector<std::pair<size_t, const ArgumentData*>> result;
-            for (auto& arg : command.arguments)
-            {
-                if (n == 0 || arg->min_count == arg->max_count)
-                {
-                    result.emplace_back(arg->min_count, arg.get());
-                }
-                else if (arg->min_count + n <= arg->max_count)
-                {
-                    result.emplace_back(arg->min_count + n, arg.get());
-                    n = 0;
-                }
-                else
-                {
-                    result.emplace_back(arg->max_count, arg.get());
-                    n -= arg->max_count - arg->min_count;
-                }
-            }
-            return result;
-        }
-    }
-
     ArgumentCounter::ArgumentCounter()
         : m_counters()
     {
@@ -58,16 +24,10 @@ namespace argos
     }
 
     ArgumentCounter::ArgumentCounter(const CommandData& command,
-                                     size_t argument_count,
-                                     size_t initial_count)
-        : m_counters(make_argument_counters(command, argument_count)),
-          m_given(m_counters.size())
+                                     size_t argument_count)
+        : ArgumentCounter(command)
     {
-        for (size_t i = 0; i < initial_count; ++i)
-        {
-            if (next_argument() == nullptr)
-                break;
-        }
+        redistribute(argument_count);
     }
 
     const ArgumentData* ArgumentCounter::next_argument()
@@ -84,6 +44,42 @@ namespace argos
         return m_counters[m_index].second;
     }
 
+    void ArgumentCounter::redistribute(size_t argument_count)
+    {
+        // Arguments before the one that received the most recent value
+        // can't receive any more.
+        size_t first = m_counters.size();
+        while (first > 0 && m_given[first - 1] == 0)
+            --first;
+        if (first > 0)
+            --first;
+
+        std::vector<size_t> missing(m_counters.size());
+        size_t total_missing = 0;
+        for (size_t i = first; i < m_counters.size(); ++i)
+        {
+            const size_t min_count = m_counters[i].second->min_count;
+            missing[i] = min_count - std::min(min_count, m_given[i]);
+            total_missing += missing[i];
+        }
+
+        auto extra = argument_count - std::min(argument_count, total_missing);
+        for (size_t i = 0; i < m_counters.size(); ++i)
+        {
+            auto& [n, arg] = m_counters[i];
+            if (i < first)
+            {
+                n = 0;
+                continue;
+            }
+            const auto room = arg->max_count - m_given[i] - missing[i];
+            const auto more = std::min(extra, room);
+            n = missing[i] + more;
+            extra -= more;
+        }
+        m_index = first;
+    }
+
     size_t ArgumentCounter::count() const
     {
         return m_counter;
diff --git a/src/Argos/ArgumentCounter.hpp b/src/Argos/ArgumentCounter.hpp
index 82a490d..3b04888 100644
--- a/src/Argos/ArgumentCounter.hpp
+++ b/src/Argos/ArgumentCounter.hpp
@@ -19,12 +19,16 @@ namespace argos
 
         explicit ArgumentCounter(const CommandData& command);
 
-        ArgumentCounter(const CommandData& command,
-                        size_t argument_count,
-                        size_t initial_count = 0);
+        ArgumentCounter(const CommandData& command, size_t argument_count);
 
         const ArgumentData* next_argument();
 
+        /**
+         * Distributes @a argument_count more values among the argument that
+         * received the most recent value and those that follow it.
+         */
+        void redistribute(size_t argument_count);
+
         [[nodiscard]] size_t count() const;
 
         [[nodiscard]] bool is_complete() const;
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 1034c88..dff6259 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -25,6 +25,14 @@ namespace argos
             return s[0] == (style == OptionStyle::SLASH ? '/' : '-');
         }
 
+        /** True if processing @a option reads a value from the command line. */
+        bool consumes_value(const OptionData& option)
+        {
+            return option.constant.empty()
+                   && (option.operation == OptionOperation::ASSIGN
+                       || option.operation == OptionOperation::APPEND);
+        }
+
         std::variant<OptionIterator, StandardOptionIterator>
         make_option_iterator(OptionStyle style,
                              std::vector<std::string_view> args)
@@ -322,6 +330,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        m_state = State::ARGUMENTS_AND_OPTIONS;
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -331,7 +340,6 @@ namespace argos
             m_argument_counter = ArgumentCounter(*m_command,
                                                  count_arguments());
         }
-        m_state = State::ARGUMENTS_AND_OPTIONS;
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
@@ -343,62 +351,53 @@ namespace argos
             parsed_args.add_unprocessed_argument(std::string(str));
     }
 
-    size_t ArgumentIteratorImpl::count_arguments() const
+    size_t ArgumentIteratorImpl::count_arguments(size_t given_count) const
     {
         size_t result = 0;
         auto it = m_iterator;
-        auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
-        for (auto arg = it.next(); arg; arg = it.next())
+        const auto min_count = ArgumentCounter::get_min_max_count(*m_command).first;
+        const auto& settings = m_data->parser_settings;
+        const auto parent_index = find_first_multi_command_parent();
+        bool arguments_only = m_state == State::ARGUMENTS_ONLY;
+        while (const auto arg = arguments_only ? it.next_value() : it.next())
         {
-            const OptionData* option = m_command->find_option(
-                *arg,
-                m_data->parser_settings.allow_abbreviated_options,
-                m_data->parser_settings.case_insensitive);
-
-            if (option)
+            if (arguments_only || !is_option(*arg, settings.option_style))
             {
-                if (!option->argument.empty())
-                    it.next_value();
-
-                bool arguments_only = false;
-
-                switch (option->type)
+                if (given_count + result >= min_count
+                    && parent_index
+                    && m_parsed_args[*parent_index]->command()->find_command(
+                        *arg, settings.case_insensitive))
                 {
-                case OptionType::HELP:
-                case OptionType::LAST_ARGUMENT:
-                case OptionType::STOP:
                     return result;
-                case OptionType::LAST_OPTION:
-                    arguments_only = true;
-                    break;
-                default:
-                    break;
                 }
 
-                if (arguments_only)
-                    break;
-            }
-            else if (!is_option(*arg, m_data->parser_settings.option_style))
-            {
-                if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
-                    return result;
-
-                if (result >= min_count && find_sibling_command(*arg).first)
-                    return result;
-
                 ++result;
+                continue;
             }
-        }
 
-        for (auto arg = it.next_value(); arg; arg = it.next_value())
-        {
-            if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
-                return result;
+            const auto* option = m_command->find_option(
+                *arg,
+                settings.allow_abbreviated_options,
+                settings.case_insensitive);
+            if (!option)
+                continue;
 
-            if (result >= min_count && find_sibling_command(*arg).first)
-                return result;
+            if (consumes_value(*option))
+                it.next_value();
 
-            ++result;
+            switch (option->type)
+            {
+            case OptionType::HELP:
+            case OptionType::STOP:
+            case OptionType::EXIT:
+            case OptionType::LAST_ARGUMENT:
+                return result;
+            case OptionType::LAST_OPTION:
+                arguments_only = true;
+                break;
+            case OptionType::NORMAL:
+                break;
+            }
         }
         return result;
     }
@@ -487,10 +486,8 @@ namespace argos
         if (!ArgumentCounter::requires_argument_count(*m_command))
             return;
 
-        auto current_count = m_argument_counter.count();
-        auto total_count = current_count + count_arguments();
-        m_argument_counter = ArgumentCounter(*m_command, total_count,
-                                             current_count);
+        m_argument_counter.redistribute(
+            count_arguments(m_argument_counter.count()));
     }
 
     void ArgumentIteratorImpl::error(const std::string& message)
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index e81b04c..3b17237 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -76,7 +76,7 @@ namespace argos
 
         void copy_remaining_arguments_to_parser_result();
 
-        [[nodiscard]] size_t count_arguments() const;
+        [[nodiscard]] size_t count_arguments(size_t given_count = 0) const;
 
         bool check_argument_and_option_counts();
 
-- 
2.43.0


From 082e26d1d2df95d0ad40fdad51367084027cc354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 04/27] fix: honour initial_value of options in sub-commands

---
 single_src/Argos/Argos.cpp         | 27 +++++++++++++++++----------
 src/Argos/ArgumentIteratorImpl.cpp | 25 +++++++++++++++----------
 src/Argos/ArgumentIteratorImpl.hpp |  2 ++
 3 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 7d6ec56..8387bd5 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1000,6 +1000,8 @@ namespace argos
         toplevel_parsed_arguments() const;
 
     private:
+        void add_initial_values();
+
         enum class OptionResult
         {
             NORMAL,
@@ -1266,6 +1268,20 @@ namespace argos
               make_option_iterator(m_data->parser_settings.option_style,
                                    std::move(args))
           }
+    {
+        add_initial_values();
+        if (!ArgumentCounter::requires_argument_count(*m_command))
+        {
+            m_argument_counter = ArgumentCounter(*m_command);
+        }
+        else
+        {
+            m_argument_counter = ArgumentCounter(*m_command,
+                                                 count_arguments());
+        }
+    }
+
+    void ArgumentIteratorImpl::add_initial_values()
     {
         auto& parsed_args = *parsed_arguments();
         for (const auto& option : m_command->options)
@@ -1277,16 +1293,6 @@ namespace argos
                                          option->argument_id);
             }
         }
-
-        if (!ArgumentCounter::requires_argument_count(*m_command))
-        {
-            m_argument_counter = ArgumentCounter(*m_command);
-        }
-        else
-        {
-            m_argument_counter = ArgumentCounter(*m_command,
-                                                 count_arguments());
-        }
     }
 
     std::shared_ptr<ParsedArgumentsImpl>
@@ -1538,6 +1544,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        add_initial_values();
         m_state = State::ARGUMENTS_AND_OPTIONS;
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index dff6259..f369e98 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -58,6 +58,20 @@ namespace argos
               make_option_iterator(m_data->parser_settings.option_style,
                                    std::move(args))
           }
+    {
+        add_initial_values();
+        if (!ArgumentCounter::requires_argument_count(*m_command))
+        {
+            m_argument_counter = ArgumentCounter(*m_command);
+        }
+        else
+        {
+            m_argument_counter = ArgumentCounter(*m_command,
+                                                 count_arguments());
+        }
+    }
+
+    void ArgumentIteratorImpl::add_initial_values()
     {
         auto& parsed_args = *parsed_arguments();
         for (const auto& option : m_command->options)
@@ -69,16 +83,6 @@ namespace argos
                                          option->argument_id);
             }
         }
-
-        if (!ArgumentCounter::requires_argument_count(*m_command))
-        {
-            m_argument_counter = ArgumentCounter(*m_command);
-        }
-        else
-        {
-            m_argument_counter = ArgumentCounter(*m_command,
-                                                 count_arguments());
-        }
     }
 
     std::shared_ptr<ParsedArgumentsImpl>
@@ -330,6 +334,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        add_initial_values();
         m_state = State::ARGUMENTS_AND_OPTIONS;
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index 3b17237..9da9e15 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -56,6 +56,8 @@ namespace argos
         toplevel_parsed_arguments() const;
 
     private:
+        void add_initial_values();
+
         enum class OptionResult
         {
             NORMAL,
-- 
2.43.0


From c8bc4c608c2ebea361654bd2d0c53b8000d80478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:36 +0000
Subject: [PATCH 05/27] fix: check mandatory options of every command that was
 used

Only the options of the innermost command were checked, so missing
mandatory options of the program, of a parent command or of a sub-command
followed by a sibling went unnoticed.
---
 single_src/Argos/Argos.cpp         | 35 +++++++++++++++++++++++++++---
 src/Argos/ArgumentIteratorImpl.cpp | 27 ++++++++++++++++++++---
 src/Argos/ArgumentIteratorImpl.hpp |  8 +++++++
 3 files changed, 64 insertions(+), 6 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 8387bd5..56e61e5 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1038,6 +1038,14 @@ namespace argos
 
         void error(const std::string& message = {});
 
+        void error(const std::string& message, const CommandData& command);
+
+        /**
+         * Checks the mandatory options of the open commands, starting from
+         * the one with index @a first_index.
+         */
+        bool check_mandatory_options(size_t first_index);
+
         bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
                                        const CommandData& command);
 
@@ -1507,6 +1515,8 @@ namespace argos
         const auto& parsed_args = parsed_arguments();
         if (auto [next_cmd, i] = find_sibling_command(value); next_cmd)
         {
+            if (!check_mandatory_options(i + 1))
+                return {IteratorResultCode::ERROR, {}, {}};
             reactivate_multi_command_parent(i);
             return process_command(next_cmd);
         }
@@ -1620,7 +1630,7 @@ namespace argos
     bool ArgumentIteratorImpl::check_argument_and_option_counts()
     {
         auto& parsed_args = *parsed_arguments();
-        if (!has_all_mandatory_options(parsed_args, *m_command))
+        if (!check_mandatory_options(0))
             return false;
 
         if (*m_command->require_subcommand && parsed_args.subcommands().empty())
@@ -1706,9 +1716,15 @@ namespace argos
     }
 
     void ArgumentIteratorImpl::error(const std::string& message)
+    {
+        error(message, *m_command);
+    }
+
+    void ArgumentIteratorImpl::error(const std::string& message,
+                                     const CommandData& command)
     {
         if (!message.empty())
-            write_error_message(*m_data, *m_command, message);
+            write_error_message(*m_data, command, message);
 
         if (m_data->parser_settings.auto_exit)
             exit(m_data->parser_settings.error_exit_code);
@@ -1719,6 +1735,19 @@ namespace argos
         m_state = State::ERROR;
     }
 
+    bool ArgumentIteratorImpl::check_mandatory_options(size_t first_index)
+    {
+        for (size_t i = first_index; i < m_parsed_args.size(); ++i)
+        {
+            if (!has_all_mandatory_options(*m_parsed_args[i],
+                                           *m_parsed_args[i]->command()))
+            {
+                return false;
+            }
+        }
+        return true;
+    }
+
     bool ArgumentIteratorImpl::has_all_mandatory_options(
         const ParsedArgumentsImpl& parsed_args,
         const CommandData& command)
@@ -1730,7 +1759,7 @@ namespace argos
                 auto flags = o->flags.front();
                 for (unsigned i = 1; i < o->flags.size(); ++i)
                     flags += ", " + o->flags[i];
-                error("Mandatory option is missing: " + flags);
+                error("Mandatory option is missing: " + flags, command);
                 return false;
             }
         }
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index f369e98..8ffc668 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -297,6 +297,8 @@ namespace argos
         const auto& parsed_args = parsed_arguments();
         if (auto [next_cmd, i] = find_sibling_command(value); next_cmd)
         {
+            if (!check_mandatory_options(i + 1))
+                return {IteratorResultCode::ERROR, {}, {}};
             reactivate_multi_command_parent(i);
             return process_command(next_cmd);
         }
@@ -410,7 +412,7 @@ namespace argos
     bool ArgumentIteratorImpl::check_argument_and_option_counts()
     {
         auto& parsed_args = *parsed_arguments();
-        if (!has_all_mandatory_options(parsed_args, *m_command))
+        if (!check_mandatory_options(0))
             return false;
 
         if (*m_command->require_subcommand && parsed_args.subcommands().empty())
@@ -496,9 +498,15 @@ namespace argos
     }
 
     void ArgumentIteratorImpl::error(const std::string& message)
+    {
+        error(message, *m_command);
+    }
+
+    void ArgumentIteratorImpl::error(const std::string& message,
+                                     const CommandData& command)
     {
         if (!message.empty())
-            write_error_message(*m_data, *m_command, message);
+            write_error_message(*m_data, command, message);
 
         if (m_data->parser_settings.auto_exit)
             exit(m_data->parser_settings.error_exit_code);
@@ -509,6 +517,19 @@ namespace argos
         m_state = State::ERROR;
     }
 
+    bool ArgumentIteratorImpl::check_mandatory_options(size_t first_index)
+    {
+        for (size_t i = first_index; i < m_parsed_args.size(); ++i)
+        {
+            if (!has_all_mandatory_options(*m_parsed_args[i],
+                                           *m_parsed_args[i]->command()))
+            {
+                return false;
+            }
+        }
+        return true;
+    }
+
     bool ArgumentIteratorImpl::has_all_mandatory_options(
         const ParsedArgumentsImpl& parsed_args,
         const CommandData& command)
@@ -520,7 +541,7 @@ namespace argos
                 auto flags = o->flags.front();
                 for (unsigned i = 1; i < o->flags.size(); ++i)
                     flags += ", " + o->flags[i];
-                error("Mandatory option is missing: " + flags);
+                error("Mandatory option is missing: " + flags, command);
                 return false;
             }
         }
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index 9da9e15..b1884a2 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -94,6 +94,14 @@ namespace argos
 
         void error(const std::string& message = {});
 
+        void error(const std::string& message, const CommandData& command);
+
+        /**
+         * Checks the mandatory options of the open commands, starting from
+         * the one with index @a first_index.
+         */
+        bool check_mandatory_options(size_t first_index);
+
         bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
                                        const CommandData& command);
 
-- 
2.43.0


From 15b474c1f86c2b8171ed732ab735aa6a27b19b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:36 +0000
Subject: [PATCH 06/27] fix: give every result in the command tree its result
 code

An option that stops processing only marked the result of the command it
belonged to, so the program's own result code remained NONE and its
stop_option() threw. Sub-commands followed by a sibling kept the code NONE
as well.
---
 single_src/Argos/Argos.cpp         | 15 +++++++++++++--
 src/Argos/ArgumentIteratorImpl.cpp | 13 +++++++++++--
 src/Argos/ArgumentIteratorImpl.hpp |  2 ++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 56e61e5..c6870d8 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1032,6 +1032,8 @@ namespace argos
         [[nodiscard]]
         std::optional<size_t> find_first_multi_command_parent() const;
 
+        void set_breaking_option(const OptionData& option);
+
         void reactivate_multi_command_parent(size_t index);
 
         void update_arguments(const std::vector<std::string>& args);
@@ -1442,11 +1444,11 @@ namespace argos
             [[fallthrough]];
         case OptionType::EXIT:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            set_breaking_option(opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            set_breaking_option(opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
             m_state = State::DONE;
@@ -1693,8 +1695,17 @@ namespace argos
         return {nullptr, 0};
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::set_breaking_option(const OptionData& option)
+    {
+        for (const auto& parsed_args : m_parsed_args)
+            parsed_args->set_breaking_option(&option);
+    }
+
     void ArgumentIteratorImpl::reactivate_multi_command_parent(size_t index)
     {
+        for (size_t i = index + 1; i < m_parsed_args.size(); ++i)
+            m_parsed_args[i]->set_result_code(ParserResultCode::SUCCESS);
         m_parsed_args.resize(index + 1);
         m_command = m_parsed_args.back()->command();
         m_argument_counter = {};
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 8ffc668..1f8de6f 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -224,11 +224,11 @@ namespace argos
             [[fallthrough]];
         case OptionType::EXIT:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            set_breaking_option(opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            set_breaking_option(opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
             m_state = State::DONE;
@@ -475,8 +475,17 @@ namespace argos
         return {nullptr, 0};
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::set_breaking_option(const OptionData& option)
+    {
+        for (const auto& parsed_args : m_parsed_args)
+            parsed_args->set_breaking_option(&option);
+    }
+
     void ArgumentIteratorImpl::reactivate_multi_command_parent(size_t index)
     {
+        for (size_t i = index + 1; i < m_parsed_args.size(); ++i)
+            m_parsed_args[i]->set_result_code(ParserResultCode::SUCCESS);
         m_parsed_args.resize(index + 1);
         m_command = m_parsed_args.back()->command();
         m_argument_counter = {};
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index b1884a2..a66c429 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -88,6 +88,8 @@ namespace argos
         [[nodiscard]]
         std::optional<size_t> find_first_multi_command_parent() const;
 
+        void set_breaking_option(const OptionData& option);
+
         void reactivate_multi_command_parent(size_t index);
 
         void update_arguments(const std::vector<std::string>& args);
-- 
2.43.0


From 36f9da973c85e3f419f361228919eb15ed0e1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 07/27] fix: keep the value given to a callback alive when it
 is cleared

---
 single_src/Argos/Argos.cpp        | 22 +++++++++++-----------
 src/Argos/ParsedArgumentsImpl.cpp | 18 ++++++++----------
 src/Argos/ParsedArgumentsImpl.hpp |  4 +++-
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index c6870d8..797e9d6 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -938,7 +938,9 @@ namespace argos
 
     private:
         /// The values received from ArgumentIteratorImpl.
-        std::multimap<ValueId, std::pair<std::string, ArgumentId>> m_values;
+        using ValueMap = std::multimap<ValueId, std::pair<std::string, ArgumentId>>;
+        ValueMap m_values;
+        std::vector<ValueMap::node_type> m_cleared_values;
         /// Index from flag, argument name or alias to ValueId and ArgumentId
         std::vector<std::tuple<std::string_view, ValueId, ArgumentId>> m_ids;
         std::vector<std::string> m_unprocessed_arguments;
@@ -5261,15 +5263,9 @@ namespace argos
                                       const std::string& value,
                                       ArgumentId argument_id)
     {
-        auto it = m_values.lower_bound(value_id);
-        if (it == m_values.end() || it->first != value_id)
-            return append_value(value_id, value, argument_id);
-
-        it->second = {value, argument_id};
-        auto nxt = next(it);
-        while (nxt != m_values.end() && nxt->first == value_id)
-            m_values.erase(nxt++);
-        return it->second.first;
+        // value can be a reference to one of the values that are cleared.
+        clear_value(value_id);
+        return append_value(value_id, value, argument_id);
     }
 
     std::string_view
@@ -5282,7 +5278,11 @@ namespace argos
 
     void ParsedArgumentsImpl::clear_value(ValueId value_id)
     {
-        m_values.erase(value_id);
+        // Callbacks, iterators and ArgumentValues may still have references
+        // to the text of the value.
+        auto it = m_values.lower_bound(value_id);
+        while (it != m_values.end() && it->first == value_id)
+            m_cleared_values.push_back(m_values.extract(it++));
     }
 
     ValueId
diff --git a/src/Argos/ParsedArgumentsImpl.cpp b/src/Argos/ParsedArgumentsImpl.cpp
index 15ef0ef..52fde4a 100644
--- a/src/Argos/ParsedArgumentsImpl.cpp
+++ b/src/Argos/ParsedArgumentsImpl.cpp
@@ -91,15 +91,9 @@ namespace argos
                                       const std::string& value,
                                       ArgumentId argument_id)
     {
-        auto it = m_values.lower_bound(value_id);
-        if (it == m_values.end() || it->first != value_id)
-            return append_value(value_id, value, argument_id);
-
-        it->second = {value, argument_id};
-        auto nxt = next(it);
-        while (nxt != m_values.end() && nxt->first == value_id)
-            m_values.erase(nxt++);
-        return it->second.first;
+        // value can be a reference to one of the values that are cleared.
+        clear_value(value_id);
+        return append_value(value_id, value, argument_id);
     }
 
     std::string_view
@@ -112,7 +106,11 @@ namespace argos
 
     void ParsedArgumentsImpl::clear_value(ValueId value_id)
     {
-        m_values.erase(value_id);
+        // Callbacks, iterators and ArgumentValues may still have references
+        // to the text of the value.
+        auto it = m_values.lower_bound(value_id);
+        while (it != m_values.end() && it->first == value_id)
+            m_cleared_values.push_back(m_values.extract(it++));
     }
 
     ValueId
diff --git a/src/Argos/ParsedArgumentsImpl.hpp b/src/Argos/ParsedArgumentsImpl.hpp
index aace419..70e75cd 100644
--- a/src/Argos/ParsedArgumentsImpl.hpp
+++ b/src/Argos/ParsedArgumentsImpl.hpp
@@ -76,7 +76,9 @@ namespace argos
 
     private:
         /// The values received from ArgumentIteratorImpl.
-        std::multimap<ValueId, std::pair<std::string, ArgumentId>> m_values;
+        using ValueMap = std::multimap<ValueId, std::pair<std::string, ArgumentId>>;
+        ValueMap m_values;
+        std::vector<ValueMap::node_type> m_cleared_values;
         /// Index from flag, argument name or alias to ValueId and ArgumentId
         std::vector<std::tuple<std::string_view, ValueId, ArgumentId>> m_ids;
         std::vector<std::string> m_unprocessed_arguments;
-- 
2.43.0


From 2d42559f2e14d580deb40bd92317490f1b3f5a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 08/27] fix: copy and move the visibility of commands

---
 single_src/Argos/Argos.cpp | 4 ++++
 src/Argos/CommandData.cpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 797e9d6..99cf108 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3041,6 +3041,7 @@ namespace argos
           name(rhs.name),
           full_name(rhs.full_name),
           texts(rhs.texts),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(rhs.section),
@@ -3066,6 +3067,7 @@ namespace argos
           name(std::move(rhs.name)),
           full_name(std::move(rhs.full_name)),
           texts(std::move(rhs.texts)),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(std::move(rhs.section)),
@@ -3084,6 +3086,7 @@ namespace argos
         name = rhs.name;
         full_name = rhs.full_name;
         texts = rhs.texts;
+        visibility = rhs.visibility;
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = rhs.section;
@@ -3117,6 +3120,7 @@ namespace argos
         name = std::move(rhs.name);
         full_name = std::move(rhs.full_name);
         texts = std::move(rhs.texts);
+        visibility = rhs.visibility;
         arguments = std::move(rhs.arguments);
         options = std::move(rhs.options);
         commands = std::move(rhs.commands);
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 16523d0..3d150d4 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -24,6 +24,7 @@ namespace argos
           name(rhs.name),
           full_name(rhs.full_name),
           texts(rhs.texts),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(rhs.section),
@@ -49,6 +50,7 @@ namespace argos
           name(std::move(rhs.name)),
           full_name(std::move(rhs.full_name)),
           texts(std::move(rhs.texts)),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(std::move(rhs.section)),
@@ -67,6 +69,7 @@ namespace argos
         name = rhs.name;
         full_name = rhs.full_name;
         texts = rhs.texts;
+        visibility = rhs.visibility;
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = rhs.section;
@@ -100,6 +103,7 @@ namespace argos
         name = std::move(rhs.name);
         full_name = std::move(rhs.full_name);
         texts = std::move(rhs.texts);
+        visibility = rhs.visibility;
         arguments = std::move(rhs.arguments);
         options = std::move(rhs.options);
         commands = std::move(rhs.commands);
-- 
2.43.0


From b24526513b9e55e84afbd2d07a86d58711a2c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 09/27] fix: keep the version when a parser is used repeatedly

---
 single_src/Argos/Argos.cpp   | 1 +
 src/Argos/ArgumentParser.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 99cf108..0c19c5c 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1802,6 +1802,7 @@ namespace argos
             result->parser_settings = data.parser_settings;
             result->help_settings = data.help_settings;
             result->command = data.command;
+            result->version = data.version;
             return result;
         }
 
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index 61ab47d..e5ca061 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -26,6 +26,7 @@ namespace argos
             result->parser_settings = data.parser_settings;
             result->help_settings = data.help_settings;
             result->command = data.command;
+            result->version = data.version;
             return result;
         }
 
-- 
2.43.0


From 21b5e97e21f716faad028b3fe64629d02faf0a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 10/27] fix: report parse(argc, argv) on a used parser

---
 single_src/Argos/Argos.cpp   | 1 +
 src/Argos/ArgumentParser.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 0c19c5c..0c4a077 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1896,6 +1896,7 @@ namespace argos
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index e5ca061..7e3a65e 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -120,6 +120,7 @@ namespace argos
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
-- 
2.43.0


From a389d1548571c9f7de4cf7777edf9c20c449afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 11/27] fix: order case-insensitive flags consistently

---
 single_src/Argos/Argos.cpp    | 15 +++++++--------
 src/Argos/StringUtilities.cpp | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 0c4a077..0a8e14f 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5674,15 +5674,14 @@ namespace argos
         return starts_with(str, prefix);
     }
 
-    int compare_ci(int c1, int c2)
+    int compare_ci(char c1, char c2)
     {
-        if (c1 == c2)
-            return 0;
-        const auto ic1 = int(uint8_t(c1) & 0xDFu);
-        if (ic1 < 'A' || 'Z' < ic1)
-            return c1 - c2;
-        const auto ic2 = int(uint8_t(c2) & 0xDFu);
-        return ic1 - ic2;
+        const auto to_upper = [](char c)
+        {
+            const auto u = int(uint8_t(c));
+            return 'a' <= u && u <= 'z' ? u - 32 : u;
+        };
+        return to_upper(c1) - to_upper(c2);
     }
 
     bool is_less_ci(std::string_view str1, std::string_view str2)
diff --git a/src/Argos/StringUtilities.cpp b/src/Argos/StringUtilities.cpp
index d992c99..4835db5 100644
--- a/src/Argos/StringUtilities.cpp
+++ b/src/Argos/StringUtilities.cpp
@@ -61,15 +61,14 @@ namespace argos
         return starts_with(str, prefix);
     }
 
-    int compare_ci(int c1, int c2)
+    int compare_ci(char c1, char c2)
     {
-        if (c1 == c2)
-            return 0;
-        const auto ic1 = int(uint8_t(c1) & 0xDFu);
-        if (ic1 < 'A' || 'Z' < ic1)
-            return c1 - c2;
-        const auto ic2 = int(uint8_t(c2) & 0xDFu);
-        return ic1 - ic2;
+        const auto to_upper = [](char c)
+        {
+            const auto u = int(uint8_t(c));
+            return 'a' <= u && u <= 'z' ? u - 32 : u;
+        };
+        return to_upper(c1) - to_upper(c2);
     }
 
     bool is_less_ci(std::string_view str1, std::string_view str2)
-- 
2.43.0


From ba8b0b0843a941ed150a4279895c28a825a161bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 12/27] fix: give nested sub-commands their complete full name

---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/CommandData.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 0a8e14f..0d4a4fe 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3465,7 +3465,7 @@ namespace argos
         cmd.build_option_index(data.parser_settings.case_insensitive);
         for (auto& c : cmd.commands)
         {
-            c->full_name = cmd.name + ' ' + c->name;
+            c->full_name = cmd.full_name + ' ' + c->name;
             finish_initialization(*c, data, start_id, argument_id);
         }
     }
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 3d150d4..e134d6e 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -446,7 +446,7 @@ namespace argos
         cmd.build_option_index(data.parser_settings.case_insensitive);
         for (auto& c : cmd.commands)
         {
-            c->full_name = cmd.name + ' ' + c->name;
+            c->full_name = cmd.full_name + ' ' + c->name;
             finish_initialization(*c, data, start_id, argument_id);
         }
     }
-- 
2.43.0


From 56765bef5a454973dc1261b2ec16a0c844552f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 13/27] fix: return the help text from CommandView::help

---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/CommandView.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 0d4a4fe..d760b40 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3487,7 +3487,7 @@ namespace argos
 
     std::string CommandView::help() const
     {
-        auto it = m_command->texts.find(TextId::ABOUT);
+        auto it = m_command->texts.find(TextId::HELP);
         return it != m_command->texts.end() ? get_text(it->second) : "";
     }
 
diff --git a/src/Argos/CommandView.cpp b/src/Argos/CommandView.cpp
index d1f9cef..087a2d1 100644
--- a/src/Argos/CommandView.cpp
+++ b/src/Argos/CommandView.cpp
@@ -18,7 +18,7 @@ namespace argos
 
     std::string CommandView::help() const
     {
-        auto it = m_command->texts.find(TextId::ABOUT);
+        auto it = m_command->texts.find(TextId::HELP);
         return it != m_command->texts.end() ? get_text(it->second) : "";
     }
 
-- 
2.43.0


From a35eb7ce3d0ec544af0e45f1bb8126a86ddc14a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 14/27] fix: report out-of-range indexes as documented

---
 single_src/Argos/Argos.cpp   | 6 ++++++
 src/Argos/ArgumentValues.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d760b40..10ef926 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -2661,6 +2661,12 @@ namespace argos
         if (m_values.empty())
             return {{}, m_args, m_value_id, {}};
 
+        if (index >= m_values.size())
+        {
+            error("Too few values: there is no value number "
+                  + std::to_string(index + 1) + ".");
+        }
+
         const auto& [value, arg_id] = m_values.at(index);
         return {value, m_args, m_value_id, arg_id};
     }
diff --git a/src/Argos/ArgumentValues.cpp b/src/Argos/ArgumentValues.cpp
index cea150c..a4b6cf5 100644
--- a/src/Argos/ArgumentValues.cpp
+++ b/src/Argos/ArgumentValues.cpp
@@ -151,6 +151,12 @@ namespace argos
         if (m_values.empty())
             return {{}, m_args, m_value_id, {}};
 
+        if (index >= m_values.size())
+        {
+            error("Too few values: there is no value number "
+                  + std::to_string(index + 1) + ".");
+        }
+
         const auto& [value, arg_id] = m_values.at(index);
         return {value, m_args, m_value_id, arg_id};
     }
-- 
2.43.0


From 2d9a267d0ced167cb51f8b689407cbe97d01a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 15/27] fix: let value(view) report the argument that set the
 value

---
 single_src/Argos/Argos.cpp           | 4 ++--
 src/Argos/ParsedArguments.cpp        | 2 +-
 src/Argos/ParsedArgumentsBuilder.cpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 10ef926..5c9a6ef 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4893,7 +4893,7 @@ namespace argos
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
@@ -5135,7 +5135,7 @@ namespace argos
     ParsedArgumentsBuilder::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
diff --git a/src/Argos/ParsedArguments.cpp b/src/Argos/ParsedArguments.cpp
index dc9881c..740c2c3 100644
--- a/src/Argos/ParsedArguments.cpp
+++ b/src/Argos/ParsedArguments.cpp
@@ -70,7 +70,7 @@ namespace argos
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
diff --git a/src/Argos/ParsedArgumentsBuilder.cpp b/src/Argos/ParsedArgumentsBuilder.cpp
index c189735..fac5a32 100644
--- a/src/Argos/ParsedArgumentsBuilder.cpp
+++ b/src/Argos/ParsedArgumentsBuilder.cpp
@@ -76,7 +76,7 @@ namespace argos
     ParsedArgumentsBuilder::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
-- 
2.43.0


From d9f0df219790c4b411b8b24aba033ae6b23af785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 16/27] fix: check what Command::copy_from adds like other
 definitions

---
 single_src/Argos/Argos.cpp | 17 ++++++++++++-----
 src/Argos/Command.cpp      |  2 +-
 src/Argos/CommandData.cpp  | 15 +++++++++++----
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 5c9a6ef..da66c17 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3008,7 +3008,7 @@ namespace argos
     Command& Command::copy_from(Command& command)
     {
         check_command();
-        data_->copy_from(*command.data_);
+        data_->copy_from(command.internal_ref());
         return *this;
     }
 
@@ -3179,6 +3179,17 @@ namespace argos
 
     void CommandData::copy_from(const CommandData& cmd)
     {
+        if (!(arguments.empty() && cmd.arguments.empty())
+            && !(commands.empty() && cmd.commands.empty()))
+        {
+            ARGOS_THROW("A command cannot have both arguments and subcommands.");
+        }
+        for (const auto& [text_id, _] : cmd.texts)
+        {
+            if (texts.contains(text_id))
+                ARGOS_THROW("Text with ID " + to_string(text_id) + " already exists.");
+        }
+
         for (const auto& a : cmd.arguments)
             arguments.push_back(std::make_unique<ArgumentData>(*a));
 
@@ -3189,11 +3200,7 @@ namespace argos
             commands.push_back(std::make_unique<CommandData>(*c));
 
         for (const auto& [text_id, source] : cmd.texts)
-        {
-            if (texts.contains(text_id))
-                ARGOS_THROW("Text with ID " + to_string(text_id) + " already exists.");
             texts.emplace(text_id, source);
-        }
 
         if (!multi_command)
             multi_command = cmd.multi_command;
diff --git a/src/Argos/Command.cpp b/src/Argos/Command.cpp
index e5993f4..1402b12 100644
--- a/src/Argos/Command.cpp
+++ b/src/Argos/Command.cpp
@@ -167,7 +167,7 @@ namespace argos
     Command& Command::copy_from(Command& command)
     {
         check_command();
-        data_->copy_from(*command.data_);
+        data_->copy_from(command.internal_ref());
         return *this;
     }
 
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index e134d6e..50681bd 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -154,6 +154,17 @@ namespace argos
 
     void CommandData::copy_from(const CommandData& cmd)
     {
+        if (!(arguments.empty() && cmd.arguments.empty())
+            && !(commands.empty() && cmd.commands.empty()))
+        {
+            ARGOS_THROW("A command cannot have both arguments and subcommands.");
+        }
+        for (const auto& [text_id, _] : cmd.texts)
+        {
+            if (texts.contains(text_id))
+                ARGOS_THROW("Text with ID " + to_string(text_id) + " already exists.");
+        }
+
         for (const auto& a : cmd.arguments)
             arguments.push_back(std::make_unique<ArgumentData>(*a));
 
@@ -164,11 +175,7 @@ namespace argos
             commands.push_back(std::make_unique<CommandData>(*c));
 
         for (const auto& [text_id, source] : cmd.texts)
-        {
-            if (texts.contains(text_id))
-                ARGOS_THROW("Text with ID " + to_string(text_id) + " already exists.");
             texts.emplace(text_id, source);
-        }
 
         if (!multi_command)
             multi_command = cmd.multi_command;
-- 
2.43.0


From c91b3a0b6a4861806b64825b11e6e8589a47149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 17/27] fix: handle a trailing carriage return in write_lines

---
 single_src/Argos/Argos.cpp  | 2 +-
 src/Argos/TextFormatter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index da66c17..e2009ce 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5866,7 +5866,7 @@ namespace argos
             if (pos == std::string_view::npos)
                 return {text, {}};
             if (text[pos] == '\n'
-                || (pos + 1 != text.size() && text[pos + 1] != '\n'))
+                || pos + 1 == text.size() || text[pos + 1] != '\n')
             {
                 return {text.substr(0, pos), text.substr(pos + 1)};
             }
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index ff39e22..ba3225b 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -22,7 +22,7 @@ namespace argos
             if (pos == std::string_view::npos)
                 return {text, {}};
             if (text[pos] == '\n'
-                || (pos + 1 != text.size() && text[pos + 1] != '\n'))
+                || pos + 1 == text.size() || text[pos + 1] != '\n')
             {
                 return {text.substr(0, pos), text.substr(pos + 1)};
             }
-- 
2.43.0


From 23836258ef2c7cdc2a0c0d35d9ce181c4f6684eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 18/27] fix: don't let leading spaces or list markers shift
 later lines

---
 single_src/Argos/Argos.cpp  | 14 +++++++++++---
 src/Argos/TextFormatter.cpp | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index e2009ce..b4e56a8 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6090,8 +6090,16 @@ namespace argos
 
     void TextFormatter::begin_alignment()
     {
-        if (m_writer.is_current_line_empty()
-            || m_state == State::UNALIGNED_MARKER)
+        if (m_writer.is_current_line_empty() && m_state == State::ALIGNMENT)
+        {
+            // Replace the indentation of the preceding spaces and tabs.
+            const auto indent = m_writer.current_width();
+            pop_indentation();
+            m_writer.set_spaces(0);
+            push_indentation(indent);
+        }
+        else if (m_writer.is_current_line_empty()
+                 || m_state == State::UNALIGNED_MARKER)
         {
             push_indentation(CURRENT_COLUMN);
             m_state = State::ALIGNMENT;
@@ -6119,8 +6127,8 @@ namespace argos
         if (m_state == State::ALIGNMENT || m_state == State::ALIGNED_MARKER)
         {
             pop_indentation();
-            m_state = State::NO_ALIGNMENT;
         }
+        m_state = State::NO_ALIGNMENT;
     }
 }
 
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index ba3225b..cb0c690 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -246,8 +246,16 @@ namespace argos
 
     void TextFormatter::begin_alignment()
     {
-        if (m_writer.is_current_line_empty()
-            || m_state == State::UNALIGNED_MARKER)
+        if (m_writer.is_current_line_empty() && m_state == State::ALIGNMENT)
+        {
+            // Replace the indentation of the preceding spaces and tabs.
+            const auto indent = m_writer.current_width();
+            pop_indentation();
+            m_writer.set_spaces(0);
+            push_indentation(indent);
+        }
+        else if (m_writer.is_current_line_empty()
+                 || m_state == State::UNALIGNED_MARKER)
         {
             push_indentation(CURRENT_COLUMN);
             m_state = State::ALIGNMENT;
@@ -275,7 +283,7 @@ namespace argos
         if (m_state == State::ALIGNMENT || m_state == State::ALIGNED_MARKER)
         {
             pop_indentation();
-            m_state = State::NO_ALIGNMENT;
         }
+        m_state = State::NO_ALIGNMENT;
     }
 }
-- 
2.43.0


From 2310978cded19e7fbe7c9f79319cd4d17400d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:27 +0000
Subject: [PATCH 19/27] fix: link names by aliases independently of their order

---
 single_src/Argos/Argos.cpp | 83 +++++++++++++++++++-------------------
 src/Argos/CommandData.cpp  | 83 +++++++++++++++++++-------------------
 2 files changed, 82 insertions(+), 84 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index b4e56a8..1f72e5a 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3376,67 +3376,66 @@ namespace argos
                 {
                 }
 
-                std::optional<ValueId> find_value_id(std::string_view name)
+                /** Make sure that all the names have the same id. */
+                void link(const std::vector<std::string_view>& names)
                 {
-                    const auto it = explicit_ids.find(name);
-                    if (it == explicit_ids.end())
-                        return {};
-                    return it->second;
-                }
-
-                ValueId get_value_id(std::string_view name)
-                {
-                    if (const auto value_id = find_value_id(name))
-                        return *value_id;
-                    id++;
-                    explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
+                    std::optional<ValueId> value_id;
+                    for (const auto name : names)
+                    {
+                        const auto it = explicit_ids.find(name);
+                        if (it == explicit_ids.end())
+                            continue;
+                        if (!value_id)
+                            value_id = it->second;
+                        else if (it->second != *value_id)
+                            replace(it->second, *value_id);
+                    }
+                    if (!value_id)
+                        value_id = ValueId(++id);
+                    for (const auto name : names)
+                        explicit_ids.emplace(name, *value_id);
                 }
 
-                ValueId get_value_id(const std::vector<std::string>& names)
+                void replace(ValueId from, ValueId to)
                 {
-                    for (const auto& name : names)
+                    for (auto& [_, value_id] : explicit_ids)
                     {
-                        if (const auto value_id = find_value_id(name))
-                            return *value_id;
+                        if (value_id == from)
+                            value_id = to;
                     }
-                    id++;
-                    for (const auto& name : names)
-                        explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
                 }
             };
 
-            int argument_id = argument_id_offset;
             InternalIdMaker id_maker(value_id_offset);
             for (const auto& a : cmd.arguments)
             {
-                a->argument_id = ArgumentId(++argument_id);
+                std::vector<std::string_view> names{a->name};
                 if (!a->alias.empty())
-                {
-                    a->value_id = id_maker.get_value_id(a->alias);
-                    id_maker.explicit_ids.emplace(a->name, a->value_id);
-                }
-                else
-                {
-                    a->value_id = id_maker.get_value_id(a->name);
-                }
+                    names.emplace_back(a->alias);
+                id_maker.link(names);
             }
             for (const auto& o : cmd.options)
             {
-                o->argument_id = ArgumentId(++argument_id);
                 if (o->operation == OptionOperation::NONE)
                     continue;
+                std::vector<std::string_view> names(o->flags.begin(),
+                                                    o->flags.end());
                 if (!o->alias.empty())
-                {
-                    o->value_id = id_maker.get_value_id(o->alias);
-                    for (auto& f : o->flags)
-                        id_maker.explicit_ids.emplace(f, o->value_id);
-                }
-                else
-                {
-                    o->value_id = id_maker.get_value_id(o->flags);
-                }
+                    names.emplace_back(o->alias);
+                id_maker.link(names);
+            }
+
+            int argument_id = argument_id_offset;
+            for (const auto& a : cmd.arguments)
+            {
+                a->argument_id = ArgumentId(++argument_id);
+                a->value_id = id_maker.explicit_ids.at(a->name);
+            }
+            for (const auto& o : cmd.options)
+            {
+                o->argument_id = ArgumentId(++argument_id);
+                if (o->operation != OptionOperation::NONE)
+                    o->value_id = id_maker.explicit_ids.at(o->flags.front());
             }
 
             return {ValueId(id_maker.id), ArgumentId(argument_id)};
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 50681bd..acf4607 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -351,67 +351,66 @@ namespace argos
                 {
                 }
 
-                std::optional<ValueId> find_value_id(std::string_view name)
+                /** Make sure that all the names have the same id. */
+                void link(const std::vector<std::string_view>& names)
                 {
-                    const auto it = explicit_ids.find(name);
-                    if (it == explicit_ids.end())
-                        return {};
-                    return it->second;
-                }
-
-                ValueId get_value_id(std::string_view name)
-                {
-                    if (const auto value_id = find_value_id(name))
-                        return *value_id;
-                    id++;
-                    explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
+                    std::optional<ValueId> value_id;
+                    for (const auto name : names)
+                    {
+                        const auto it = explicit_ids.find(name);
+                        if (it == explicit_ids.end())
+                            continue;
+                        if (!value_id)
+                            value_id = it->second;
+                        else if (it->second != *value_id)
+                            replace(it->second, *value_id);
+                    }
+                    if (!value_id)
+                        value_id = ValueId(++id);
+                    for (const auto name : names)
+                        explicit_ids.emplace(name, *value_id);
                 }
 
-                ValueId get_value_id(const std::vector<std::string>& names)
+                void replace(ValueId from, ValueId to)
                 {
-                    for (const auto& name : names)
+                    for (auto& [_, value_id] : explicit_ids)
                     {
-                        if (const auto value_id = find_value_id(name))
-                            return *value_id;
+                        if (value_id == from)
+                            value_id = to;
                     }
-                    id++;
-                    for (const auto& name : names)
-                        explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
                 }
             };
 
-            int argument_id = argument_id_offset;
             InternalIdMaker id_maker(value_id_offset);
             for (const auto& a : cmd.arguments)
             {
-                a->argument_id = ArgumentId(++argument_id);
+                std::vector<std::string_view> names{a->name};
                 if (!a->alias.empty())
-                {
-                    a->value_id = id_maker.get_value_id(a->alias);
-                    id_maker.explicit_ids.emplace(a->name, a->value_id);
-                }
-                else
-                {
-                    a->value_id = id_maker.get_value_id(a->name);
-                }
+                    names.emplace_back(a->alias);
+                id_maker.link(names);
             }
             for (const auto& o : cmd.options)
             {
-                o->argument_id = ArgumentId(++argument_id);
                 if (o->operation == OptionOperation::NONE)
                     continue;
+                std::vector<std::string_view> names(o->flags.begin(),
+                                                    o->flags.end());
                 if (!o->alias.empty())
-                {
-                    o->value_id = id_maker.get_value_id(o->alias);
-                    for (auto& f : o->flags)
-                        id_maker.explicit_ids.emplace(f, o->value_id);
-                }
-                else
-                {
-                    o->value_id = id_maker.get_value_id(o->flags);
-                }
+                    names.emplace_back(o->alias);
+                id_maker.link(names);
+            }
+
+            int argument_id = argument_id_offset;
+            for (const auto& a : cmd.arguments)
+            {
+                a->argument_id = ArgumentId(++argument_id);
+                a->value_id = id_maker.explicit_ids.at(a->name);
+            }
+            for (const auto& o : cmd.options)
+            {
+                o->argument_id = ArgumentId(++argument_id);
+                if (o->operation != OptionOperation::NONE)
+                    o->value_id = id_maker.explicit_ids.at(o->flags.front());
             }
 
             return {ValueId(id_maker.id), ArgumentId(argument_id)};
-- 
2.43.0


From b7955f0a91ae2e7f38b22eaa2809cac2381e8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 20/27] fix: filter_parsed_arguments with sub-commands and
 split tokens

---
 single_src/Argos/Argos.cpp    | 47 +++++++++++++++++++++++++++--------
 src/Argos/ParsedArguments.cpp | 47 +++++++++++++++++++++++++++--------
 2 files changed, 72 insertions(+), 22 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 1f72e5a..fcb2ed3 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4963,25 +4963,50 @@ namespace argos
         return m_impl->unprocessed_arguments();
     }
 
-    void ParsedArguments::filter_parsed_arguments(int& argc, char**& argv) const
+    namespace
     {
-        if (argc <= 1)
-            return;
-        const auto& unprocessed = m_impl->unprocessed_arguments();
-        auto it = unprocessed.begin();
-        int out = 1;
-        if (!unprocessed.empty())
+        /**
+         * Finds the unprocessed arguments of @a args and its sub-commands
+         * in @a argv. Starts at the end because the arguments that were
+         * left when the parsing stopped are always found there.
+         */
+        void find_unprocessed_arguments(const ParsedArgumentsImpl& args,
+                                        char** argv,
+                                        std::vector<bool>& found)
         {
-            for (int in = 1; in < argc; ++in)
+            const auto& commands = args.subcommands();
+            for (auto it = commands.rbegin(); it != commands.rend(); ++it)
+                find_unprocessed_arguments(**it, argv, found);
+
+            auto end = found.size();
+            const auto& unprocessed = args.unprocessed_arguments();
+            for (auto it = unprocessed.rbegin(); it != unprocessed.rend(); ++it)
             {
-                if (argv[in] == *it)
+                for (auto i = end; i-- > 1;)
                 {
-                    argv[out++] = argv[in];
-                    if (++it == unprocessed.end())
+                    if (!found[i] && argv[i] == *it)
+                    {
+                        found[i] = true;
+                        end = i;
                         break;
+                    }
                 }
             }
         }
+    }
+
+    void ParsedArguments::filter_parsed_arguments(int& argc, char**& argv) const
+    {
+        if (argc <= 1)
+            return;
+        std::vector<bool> found(static_cast<size_t>(argc));
+        find_unprocessed_arguments(*m_impl, argv, found);
+        int out = 1;
+        for (int in = 1; in < argc; ++in)
+        {
+            if (found[static_cast<size_t>(in)])
+                argv[out++] = argv[in];
+        }
         argc = out;
     }
 
diff --git a/src/Argos/ParsedArguments.cpp b/src/Argos/ParsedArguments.cpp
index 740c2c3..d3e33ec 100644
--- a/src/Argos/ParsedArguments.cpp
+++ b/src/Argos/ParsedArguments.cpp
@@ -134,25 +134,50 @@ namespace argos
         return m_impl->unprocessed_arguments();
     }
 
-    void ParsedArguments::filter_parsed_arguments(int& argc, char**& argv) const
+    namespace
     {
-        if (argc <= 1)
-            return;
-        const auto& unprocessed = m_impl->unprocessed_arguments();
-        auto it = unprocessed.begin();
-        int out = 1;
-        if (!unprocessed.empty())
+        /**
+         * Finds the unprocessed arguments of @a args and its sub-commands
+         * in @a argv. Starts at the end because the arguments that were
+         * left when the parsing stopped are always found there.
+         */
+        void find_unprocessed_arguments(const ParsedArgumentsImpl& args,
+                                        char** argv,
+                                        std::vector<bool>& found)
         {
-            for (int in = 1; in < argc; ++in)
+            const auto& commands = args.subcommands();
+            for (auto it = commands.rbegin(); it != commands.rend(); ++it)
+                find_unprocessed_arguments(**it, argv, found);
+
+            auto end = found.size();
+            const auto& unprocessed = args.unprocessed_arguments();
+            for (auto it = unprocessed.rbegin(); it != unprocessed.rend(); ++it)
             {
-                if (argv[in] == *it)
+                for (auto i = end; i-- > 1;)
                 {
-                    argv[out++] = argv[in];
-                    if (++it == unprocessed.end())
+                    if (!found[i] && argv[i] == *it)
+                    {
+                        found[i] = true;
+                        end = i;
                         break;
+                    }
                 }
             }
         }
+    }
+
+    void ParsedArguments::filter_parsed_arguments(int& argc, char**& argv) const
+    {
+        if (argc <= 1)
+            return;
+        std::vector<bool> found(static_cast<size_t>(argc));
+        find_unprocessed_arguments(*m_impl, argv, found);
+        int out = 1;
+        for (int in = 1; in < argc; ++in)
+        {
+            if (found[static_cast<size_t>(in)])
+                argv[out++] = argv[in];
+        }
         argc = out;
     }
 
-- 
2.43.0


From 4fb7114f1fb70dfe72009b26224a7f7c0abb844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:45 +0000
Subject: [PATCH 21/27] fix: skip inserted arguments when filtering without
 losing others

---
 single_src/Argos/Argos.cpp    | 57 ++++++++++++++++++++++++++++-------
 src/Argos/ParsedArguments.cpp | 57 ++++++++++++++++++++++++++++-------
 2 files changed, 92 insertions(+), 22 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index fcb2ed3..f3fb6a1 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4967,8 +4967,10 @@ namespace argos
     {
         /**
          * Finds the unprocessed arguments of @a args and its sub-commands
-         * in @a argv. Starts at the end because the arguments that were
-         * left when the parsing stopped are always found there.
+         * in @a argv. Arguments that were never in argv, for instance because
+         * a callback inserted them, are skipped, i.e. what's found is the
+         * longest common subsequence. It's traced from the end because the
+         * arguments that were left when the parsing stopped are found there.
          */
         void find_unprocessed_arguments(const ParsedArgumentsImpl& args,
                                         char** argv,
@@ -4978,18 +4980,51 @@ namespace argos
             for (auto it = commands.rbegin(); it != commands.rend(); ++it)
                 find_unprocessed_arguments(**it, argv, found);
 
-            auto end = found.size();
             const auto& unprocessed = args.unprocessed_arguments();
-            for (auto it = unprocessed.rbegin(); it != unprocessed.rend(); ++it)
+            std::vector<size_t> indexes;
+            for (size_t i = 1; i < found.size(); ++i)
             {
-                for (auto i = end; i-- > 1;)
+                if (!found[i])
+                    indexes.push_back(i);
+            }
+
+            auto m = unprocessed.size();
+            auto n = indexes.size();
+            auto is_match = [&](size_t i, size_t j)
+            {
+                return unprocessed[i - 1] == argv[indexes[j - 1]];
+            };
+
+            for (; m > 0 && n > 0 && is_match(m, n); --m, --n)
+                found[indexes[n - 1]] = true;
+
+            std::vector<std::vector<size_t>> lengths(
+                m + 1, std::vector<size_t>(n + 1));
+            for (size_t i = 1; i <= m; ++i)
+            {
+                for (size_t j = 1; j <= n; ++j)
                 {
-                    if (!found[i] && argv[i] == *it)
-                    {
-                        found[i] = true;
-                        end = i;
-                        break;
-                    }
+                    lengths[i][j] = is_match(i, j)
+                        ? lengths[i - 1][j - 1] + 1
+                        : std::max(lengths[i - 1][j], lengths[i][j - 1]);
+                }
+            }
+
+            while (m > 0 && n > 0)
+            {
+                if (is_match(m, n))
+                {
+                    found[indexes[n - 1]] = true;
+                    --m;
+                    --n;
+                }
+                else if (lengths[m - 1][n] > lengths[m][n - 1])
+                {
+                    --m;
+                }
+                else
+                {
+                    --n;
                 }
             }
         }
diff --git a/src/Argos/ParsedArguments.cpp b/src/Argos/ParsedArguments.cpp
index d3e33ec..eda8454 100644
--- a/src/Argos/ParsedArguments.cpp
+++ b/src/Argos/ParsedArguments.cpp
@@ -138,8 +138,10 @@ namespace argos
     {
         /**
          * Finds the unprocessed arguments of @a args and its sub-commands
-         * in @a argv. Starts at the end because the arguments that were
-         * left when the parsing stopped are always found there.
+         * in @a argv. Arguments that were never in argv, for instance because
+         * a callback inserted them, are skipped, i.e. what's found is the
+         * longest common subsequence. It's traced from the end because the
+         * arguments that were left when the parsing stopped are found there.
          */
         void find_unprocessed_arguments(const ParsedArgumentsImpl& args,
                                         char** argv,
@@ -149,18 +151,51 @@ namespace argos
             for (auto it = commands.rbegin(); it != commands.rend(); ++it)
                 find_unprocessed_arguments(**it, argv, found);
 
-            auto end = found.size();
             const auto& unprocessed = args.unprocessed_arguments();
-            for (auto it = unprocessed.rbegin(); it != unprocessed.rend(); ++it)
+            std::vector<size_t> indexes;
+            for (size_t i = 1; i < found.size(); ++i)
             {
-                for (auto i = end; i-- > 1;)
+                if (!found[i])
+                    indexes.push_back(i);
+            }
+
+            auto m = unprocessed.size();
+            auto n = indexes.size();
+            auto is_match = [&](size_t i, size_t j)
+            {
+                return unprocessed[i - 1] == argv[indexes[j - 1]];
+            };
+
+            for (; m > 0 && n > 0 && is_match(m, n); --m, --n)
+                found[indexes[n - 1]] = true;
+
+            std::vector<std::vector<size_t>> lengths(
+                m + 1, std::vector<size_t>(n + 1));
+            for (size_t i = 1; i <= m; ++i)
+            {
+                for (size_t j = 1; j <= n; ++j)
+                {
+                    lengths[i][j] = is_match(i, j)
+                        ? lengths[i - 1][j - 1] + 1
+                        : std::max(lengths[i - 1][j], lengths[i][j - 1]);
+                }
+            }
+
+            while (m > 0 && n > 0)
+            {
+                if (is_match(m, n))
+                {
+                    found[indexes[n - 1]] = true;
+                    --m;
+                    --n;
+                }
+                else if (lengths[m - 1][n] > lengths[m][n - 1])
+                {
+                    --m;
+                }
+                else
                 {
-                    if (!found[i] && argv[i] == *it)
-                    {
-                        found[i] = true;
-                        end = i;
-                        break;
-                    }
+                    --n;
                 }
             }
         }
-- 
2.43.0


From b16c14da445368a206dfc6ebd1bee6dfcc8fb2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 22/27] fix: reject negative numbers when reading unsigned
 integers

---
 single_src/Argos/Argos.cpp | 13 ++++++++++---
 src/Argos/ParseValue.cpp   | 14 +++++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index f3fb6a1..7999353 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4725,9 +4725,16 @@ namespace argos
             char* endp = nullptr;
             errno = 0;
             auto value = str_to_int<T>(str.c_str(), &endp, base);
-            if (endp == str.c_str() + str.size() && errno == 0)
-                return value;
-            return {};
+            if (endp != str.c_str() + str.size() || errno != 0)
+                return {};
+            // strtoul and strtoull convert negative numbers to large
+            // positive ones.
+            if (std::is_unsigned_v<T> && value != 0
+                && str.find('-') != std::string::npos)
+            {
+                return {};
+            }
+            return value;
         }
     }
 
diff --git a/src/Argos/ParseValue.cpp b/src/Argos/ParseValue.cpp
index 6a58cff..9d433c1 100644
--- a/src/Argos/ParseValue.cpp
+++ b/src/Argos/ParseValue.cpp
@@ -11,6 +11,7 @@
 #include <cerrno>
 #include <climits>
 #include <cstdlib>
+#include <type_traits>
 #include "StringUtilities.hpp"
 
 namespace argos
@@ -54,9 +55,16 @@ namespace argos
             char* endp = nullptr;
             errno = 0;
             auto value = str_to_int<T>(str.c_str(), &endp, base);
-            if (endp == str.c_str() + str.size() && errno == 0)
-                return value;
-            return {};
+            if (endp != str.c_str() + str.size() || errno != 0)
+                return {};
+            // strtoul and strtoull convert negative numbers to large
+            // positive ones.
+            if (std::is_unsigned_v<T> && value != 0
+                && str.find('-') != std::string::npos)
+            {
+                return {};
+            }
+            return value;
         }
     }
 
-- 
2.43.0


From b551da588de73b47e0a2d1b2760f5a89141f02eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:02 +0000
Subject: [PATCH 23/27] fix: accept subnormal floating-point numbers

---
 single_src/Argos/Argos.cpp | 6 +++++-
 src/Argos/ParseValue.cpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 7999353..6727306 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4682,6 +4682,7 @@ namespace argos
 // License text is included with the source distribution.
 //****************************************************************************
 
+#include <cmath>
 #include <cstdlib>
 
 namespace argos
@@ -4821,7 +4822,10 @@ namespace argos
             char* endp = nullptr;
             errno = 0;
             auto value = str_to_float<T>(str.c_str(), &endp);
-            if (endp == str.c_str() + str.size() && errno == 0)
+            if (endp != str.c_str() + str.size())
+                return {};
+            // Subnormal numbers are valid even though errno is ERANGE.
+            if (errno == 0 || (value != 0 && std::isfinite(value)))
                 return value;
             return {};
         }
diff --git a/src/Argos/ParseValue.cpp b/src/Argos/ParseValue.cpp
index 9d433c1..717a7ed 100644
--- a/src/Argos/ParseValue.cpp
+++ b/src/Argos/ParseValue.cpp
@@ -10,6 +10,7 @@
 
 #include <cerrno>
 #include <climits>
+#include <cmath>
 #include <cstdlib>
 #include <type_traits>
 #include "StringUtilities.hpp"
@@ -151,7 +152,10 @@ namespace argos
             char* endp = nullptr;
             errno = 0;
             auto value = str_to_float<T>(str.c_str(), &endp);
-            if (endp == str.c_str() + str.size() && errno == 0)
+            if (endp != str.c_str() + str.size())
+                return {};
+            // Subnormal numbers are valid even though errno is ERANGE.
+            if (errno == 0 || (value != 0 && std::isfinite(value)))
                 return value;
             return {};
         }
-- 
2.43.0


From 27932aa8f33004ca290e309455cc75dbc28ad3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 24/27] fix: keep the space after a list marker at the end of a
 line

---
 single_src/Argos/Argos.cpp  | 5 ++++-
 src/Argos/TextFormatter.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 6727306..23cdb16 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6024,7 +6024,10 @@ namespace argos
         if (indent == CURRENT_COLUMN)
         {
             indent = m_writer.current_width();
-            m_writer.set_spaces(0);
+            // There's no room for the indentation if it's beyond the end of
+            // the line, the spaces must still separate the words.
+            if (indent < m_writer.line_width())
+                m_writer.set_spaces(0);
         }
         m_indents.push_back(indent);
         m_writer.set_indentation(indent);
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index cb0c690..e5186ad 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -110,7 +110,10 @@ namespace argos
         if (indent == CURRENT_COLUMN)
         {
             indent = m_writer.current_width();
-            m_writer.set_spaces(0);
+            // There's no room for the indentation if it's beyond the end of
+            // the line, the spaces must still separate the words.
+            if (indent < m_writer.line_width())
+                m_writer.set_spaces(0);
         }
         m_indents.push_back(indent);
         m_writer.set_indentation(indent);
-- 
2.43.0


From 30c996263695fc42873d4a09c935f371b3f1a6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 25/27] fix: restore the indentation after one that didn't fit

---
 single_src/Argos/Argos.cpp  | 3 ++-
 src/Argos/TextFormatter.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 23cdb16..48736fc 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6029,8 +6029,9 @@ namespace argos
             if (indent < m_writer.line_width())
                 m_writer.set_spaces(0);
         }
-        m_indents.push_back(indent);
+        // The writer ignores indentations that are beyond the end of the line.
         m_writer.set_indentation(indent);
+        m_indents.push_back(m_writer.indentation());
     }
 
     void TextFormatter::pop_indentation()
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index e5186ad..606c4ab 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -115,8 +115,9 @@ namespace argos
             if (indent < m_writer.line_width())
                 m_writer.set_spaces(0);
         }
-        m_indents.push_back(indent);
+        // The writer ignores indentations that are beyond the end of the line.
         m_writer.set_indentation(indent);
+        m_indents.push_back(m_writer.indentation());
     }
 
     void TextFormatter::pop_indentation()
-- 
2.43.0


From 4f65e9097c7b23191f184fda701d8223b62fe197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:04 +0000
Subject: [PATCH 26/27] fix: give access to the whole result from an iterator
 in a sub-command

---
 single_src/Argos/Argos.cpp     | 2 +-
 src/Argos/ArgumentIterator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 48736fc..6f6f230 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1136,7 +1136,7 @@ namespace argos
 
     ParsedArguments ArgumentIterator::parsed_arguments() const
     {
-        return ParsedArguments(impl().parsed_arguments());
+        return ParsedArguments(impl().toplevel_parsed_arguments());
     }
 
     ArgumentIteratorImpl& ArgumentIterator::impl()
diff --git a/src/Argos/ArgumentIterator.cpp b/src/Argos/ArgumentIterator.cpp
index d6c8d09..cd1f59a 100644
--- a/src/Argos/ArgumentIterator.cpp
+++ b/src/Argos/ArgumentIterator.cpp
@@ -67,7 +67,7 @@ namespace argos
 
     ParsedArguments ArgumentIterator::parsed_arguments() const
     {
-        return ParsedArguments(impl().parsed_arguments());
+        return ParsedArguments(impl().toplevel_parsed_arguments());
     }
 
     ArgumentIteratorImpl& ArgumentIterator::impl()
-- 
2.43.0


From 0807026c65c567d5640ad3b0d483003f3adf4d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:02 +0000
Subject: [PATCH 27/27] fix: use the file name in argv[0] in every function
 taking argc and argv

---
 single_src/Argos/Argos.cpp   | 30 ++++++++++++++++++++++--------
 src/Argos/ArgumentParser.cpp | 30 ++++++++++++++++++++++--------
 2 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 6f6f230..097594d 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1808,6 +1808,16 @@ namespace argos
 
         constexpr char DEFAULT_NAME[] = "UNINITIALIZED";
 
+        /**
+         * @brief Uses the file name in argv[0] as the program name if no
+         *  other name has been given.
+         */
+        void set_default_name(ParserData& data, const char* argv0)
+        {
+            if (data.command.name == DEFAULT_NAME && std::strlen(argv0) != 0)
+                data.command.name = get_base_name(argv0);
+        }
+
         ParsedArguments parse_arguments(std::vector<std::string_view> args,
                                         const std::shared_ptr<ParserData>& data)
         {
@@ -1900,12 +1910,7 @@ namespace argos
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
-        if (m_data->command.name == DEFAULT_NAME
-            && std::strlen(argv[0]) != 0)
-        {
-            m_data->command.name = get_base_name(argv[0]);
-        }
-
+        set_default_name(*m_data, argv[0]);
         return parse(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
@@ -1913,7 +1918,11 @@ namespace argos
     {
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
-        return parse(std::vector<std::string_view>(argv + 1, argv + argc));
+
+        check_data();
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return parse_arguments({argv + 1, argv + argc}, std::move(data));
     }
 
     ParsedArguments ArgumentParser::parse(std::vector<std::string_view> args)
@@ -1930,16 +1939,21 @@ namespace argos
 
     ArgumentIterator ArgumentParser::make_iterator(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
+        set_default_name(*m_data, argv[0]);
         return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
     ArgumentIterator ArgumentParser::make_iterator(int argc, char** argv) const
     {
+        check_data();
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
-        return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return make_argument_iterator({argv + 1, argv + argc}, std::move(data));
     }
 
     ArgumentIterator
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index 7e3a65e..fa5fd0f 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -32,6 +32,16 @@ namespace argos
 
         constexpr char DEFAULT_NAME[] = "UNINITIALIZED";
 
+        /**
+         * @brief Uses the file name in argv[0] as the program name if no
+         *  other name has been given.
+         */
+        void set_default_name(ParserData& data, const char* argv0)
+        {
+            if (data.command.name == DEFAULT_NAME && std::strlen(argv0) != 0)
+                data.command.name = get_base_name(argv0);
+        }
+
         ParsedArguments parse_arguments(std::vector<std::string_view> args,
                                         const std::shared_ptr<ParserData>& data)
         {
@@ -124,12 +134,7 @@ namespace argos
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
-        if (m_data->command.name == DEFAULT_NAME
-            && std::strlen(argv[0]) != 0)
-        {
-            m_data->command.name = get_base_name(argv[0]);
-        }
-
+        set_default_name(*m_data, argv[0]);
         return parse(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
@@ -137,7 +142,11 @@ namespace argos
     {
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
-        return parse(std::vector<std::string_view>(argv + 1, argv + argc));
+
+        check_data();
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return parse_arguments({argv + 1, argv + argc}, std::move(data));
     }
 
     ParsedArguments ArgumentParser::parse(std::vector<std::string_view> args)
@@ -154,16 +163,21 @@ namespace argos
 
     ArgumentIterator ArgumentParser::make_iterator(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
+        set_default_name(*m_data, argv[0]);
         return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
     ArgumentIterator ArgumentParser::make_iterator(int argc, char** argv) const
     {
+        check_data();
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
-        return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return make_argument_iterator({argv + 1, argv + argc}, std::move(data));
     }
 
     ArgumentIterator
-- 
2.43.0

