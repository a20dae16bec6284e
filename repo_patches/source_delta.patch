From 712e4a485cb773d6cbef8e1b3890c64016a7b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 001/104] fix: JUMP PREVIOUS(n) and JUMP NEXT(n) raised instead
 of parsing

---
 src/mccode_antlr/instr/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index e6e68d8..d9e06d1 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -238,14 +238,14 @@ class InstrVisitor(McInstrVisitor):
 
     def visitJumpPrevious(self, ctx: McInstrParser.JumpPreviousContext):
         i = ctx.IntegerLiteral()
-        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(i))
+        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(str(i)))
 
     def visitJumpMyself(self, ctx: McInstrParser.JumpMyselfContext):
         return "MYSELF", 0
 
     def visitJumpNext(self, ctx: McInstrParser.JumpNextContext):
         i = ctx.IntegerLiteral()
-        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(i))
+        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(str(i)))
 
     def visitJumpIdentifier(self, ctx: McInstrParser.JumpIdentifierContext):
         return str(ctx.Identifier()), 0
-- 
2.43.0


From 0e2eaa876f16c69fa5d7977ed00b8455a49b1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 002/104] fix: keep the first transformation when leading
 components have none applied

---
 src/mccode_antlr/translators/c_initialise.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index d0582ea..5f527d4 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -36,7 +36,8 @@ def _split_xyz_ref(xyz_ref):
 
 
 def cogen_comp_init_position(index, comp, last, instr):
-    ref = None if index == 0 else instr.components[last]
+    # With no earlier component applying its transformation, particles are still in the absolute frame
+    ref = None if last is None else instr.components[last]
     var = f'_{comp.name}_var'
     lines = [
         f'  /* component {comp.name}={comp.type.name}() AT ROTATED */',
@@ -62,7 +63,7 @@ def cogen_comp_init_position(index, comp, last, instr):
             f'    rot_mul(tr1, _{rel.name}_var._rotation_absolute, {var}._rotation_absolute);'
         ])
     # Sort out relative orientation
-    if index == 0:
+    if ref is None:
         lines.append(f'    rot_copy({var}._rotation_relative, {var}._rotation_absolute);')
     else:
         lines.extend([
@@ -84,7 +85,7 @@ def cogen_comp_init_position(index, comp, last, instr):
             '    tc2 = rot_apply(tr1, tc1);',
             f'    {var}._position_absolute = coords_add(_{rel.name}_var._position_absolute, tc2);'
         ])
-    if index == 0:
+    if ref is None:
         lines.append(f'    tc1 = coords_neg({var}._position_absolute);')
     else:
         lines.append(f'    tc1 = coords_sub(_{ref.name}_var._position_absolute, {var}._position_absolute);')
@@ -230,7 +231,7 @@ def cogen_initialize(source, component_declared_parameters, ok_to_skip):
              "***************************************************************************** */",
              _GETDISTANCE_FCT, ""]
 
-    last = 0
+    last = None
     for idx, comp in enumerate(source.components):
         lines.extend(cogen_comp_setpos(idx, comp, last, source, component_declared_parameters))
         if ok_to_skip is not None and not ok_to_skip[idx]:
-- 
2.43.0


From 10366c638c064e71dd86c9912f9ff2a681de0d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 003/104] fix: a GROUP member not executed due to WHEN no
 longer claims an earlier component's scattering

---
 src/mccode_antlr/translators/c_raytrace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index 03adf47..0cc3799 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -89,6 +89,7 @@ def cogen_raytrace(source, ok_to_skip):
         if len(comp.type.trace) or len(comp.extend):
             # WHEN
             if comp.when is not None:
+                lines.append('      SCATTERED=0; // no interaction unless executed')
                 lines.append(f'      if (({comp.when:p}))  // conditional WHEN execution')
             lines.extend([
                 f'      class_{comp.type.name}_trace(&_{comp.name}_var, _particle);{" /* contains EXTEND code */" if len(comp.extend) else ""}',
@@ -384,6 +385,7 @@ def cogen_funnel(source, ok_to_skip):
             ])
         if len(comp.type.trace) or len(comp.extend):
             if comp.when is not None:
+                lines.append('    SCATTERED=0; // no interaction unless executed')
                 lines.append(f'    if (({comp.when:p}))  // conditional WHEN')
             lines.extend([
                 f'        class_{comp.type.name}_trace(&_{comp.name}_var, _particle);{" /* contains EXTEND code */" if len(comp.extend) else ""}',
-- 
2.43.0


From d15755e2ce6e570667fa9a45485a0021512b0b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 004/104] fix: a particle sent back by a JUMP is no longer
 split, and its weight divided, before it reaches the SPLIT component

---
 src/mccode_antlr/translators/c_raytrace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index 0cc3799..a20aebf 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -44,7 +44,8 @@ def cogen_raytrace(source, ok_to_skip):
                 f'    /* start SPLIT at {comp.name} */',
                 '    if (!ABSORBED) {',
                 f'    _class_particle Split_{comp.name}_particle = *_particle;',
-                f'    int SplitS_{comp.name} = {comp.split:p};',
+                # a particle on its way to another component, after a JUMP, passes here only once and unchanged
+                f'    int SplitS_{comp.name} = (_particle->_index == {1+index}) ? ({comp.split:p}) : 1;',
                 # following https://github.com/McStasMcXtrace/McCode/commit/72cb740d465e2780b228bd937cf62429a96f64d5
                 '    #pragma acc loop independent',
                 f'    for (int SplitN_{comp.name}=0; SplitN_{comp.name} < SplitS_{comp.name}; SplitN_{comp.name}++) {{',
-- 
2.43.0


From b933612bc469c83c5051098282f24895f62bcc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 005/104] fix: every iterated JUMP has its own counter, two to
 the same target did not compile

---
 src/mccode_antlr/translators/c_header.py   |  8 +++++---
 src/mccode_antlr/translators/c_raytrace.py | 12 +++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index 860b95b..19c5912 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -17,10 +17,12 @@ def header_pre_runtime(
         setstate_signature_members, getstate_signature_members, setstate_signature_call
     )
 
-    def jump_line(instance, jump):
-        return f'long Jump_{instance.name}_{jump.target}; /* the JUMP connection <from>_<to> */'
+    def jump_line(index, instance, n, jump):
+        name = f'Jump_{instance.name}_{jump.target}_{index}_{n}'
+        return f'long {name}; /* the JUMP connection <from>_<to>_<index>_<n> */'
 
-    jump_string = '\n'.join([jump_line(i, j) for i in source.components for j in i.jump if j.iterate])
+    jump_string = '\n'.join([jump_line(k, i, n, j) for k, i in enumerate(source.components)
+                             for n, j in enumerate(i.jump) if j.iterate])
 
     if is_mcstas:
         particle_struct = '\n'.join([
diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index a20aebf..6f78981 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -23,8 +23,10 @@ def cogen_raytrace(source, ok_to_skip):
     print("\n-----------------------------------------------------------")
     print("\nGenerating single GPU kernel or single CPU section layout:")
 
-    for name, target in [(c.name, j.target) for c in source.components for j in c.jump if j.iterate]:
-        lines.append(f'  _particle->_logic.Jump_{name}_{target}=0;')
+    for index, comp in enumerate(source.components):
+        for n, jump in enumerate(comp.jump):
+            if jump.iterate:
+                lines.append(f'  _particle->_logic.Jump_{comp.name}_{jump.target}_{index}_{n}=0;')
 
     lines.extend([
         "  _particle->flag_nocoordschange=0; /* Init */",
@@ -98,14 +100,14 @@ def cogen_raytrace(source, ok_to_skip):
                 '        particle_restore(_particle, &_particle_save);'
             ])
         # If we have a JUMP, change the index
-        for jump in comp.jump:
+        for n, jump in enumerate(comp.jump):
             if jump.iterate:
                 lines.extend([
-                    f'      if (++_particle->_logic.Jump_{comp.name}_{jump.target} < {jump.condition:p}) {{ /* test for iteration */',
+                    f'      if (++_particle->_logic.Jump_{comp.name}_{jump.target}_{index}_{n} < {jump.condition:p}) {{ /* test for iteration */',
                     f'        _particle->_index = {jump.absolute_target};',  # NO -1 despite to ++ below, 0-based target
                     '        _particle->flag_nocoordschange=1; /* pass coordinate transformations when jumping */',
                     '      } else {',
-                    f'        _particle->_logic.Jump_{comp.name}_{jump.target} = 0; /* reset Jump top and go forward */',
+                    f'        _particle->_logic.Jump_{comp.name}_{jump.target}_{index}_{n} = 0; /* reset Jump top and go forward */',
                     '      }'
                 ])
             else:
-- 
2.43.0


From f3e0ce6270d1fd272338ca0f83f623f349ae68ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 006/104] fix: the FUNNEL event loop leaves a GROUP at its end,
 in its coordinates, and offers every member the same particle

---
 src/mccode_antlr/translators/c_raytrace.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index 6f78981..0d3405d 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -372,10 +372,11 @@ def cogen_funnel(source, ok_to_skip):
 
         lines.extend([
             f'      // {comp.name}',
-            f'      if (!ABSORBED && _particle->_index == {index+1}) {{',
         ])
         if not ok_to_skip[index]:
+            # also for the particles which pass over this component when leaving a GROUP
             lines.extend([
+                "      if (!ABSORBED) {",
                 "        #ifndef MULTICORE",
                 f"        if (_{comp.name}_var._rotation_is_identity) {{",
                 f"          coords_get(coords_add(coords_set(x,y,z), _{comp.name}_var._position_relative),&x, &y, &z);",
@@ -384,8 +385,11 @@ def cogen_funnel(source, ok_to_skip):
                 "        {",
                 f"          mccoordschange(_{comp.name}_var._position_relative, _{comp.name}_var._rotation_relative, _particle);",
                 '        }',
-                "        _particle_save = *_particle;",
+                '      }',
             ])
+        lines.append(f'      if (!ABSORBED && _particle->_index == {index+1}) {{')
+        if not ok_to_skip[index]:
+            lines.append("        _particle_save = *_particle;")
         if len(comp.type.trace) or len(comp.extend):
             if comp.when is not None:
                 lines.append('    SCATTERED=0; // no interaction unless executed')
@@ -405,14 +409,17 @@ def cogen_funnel(source, ok_to_skip):
             lines.extend([
                 f'    // GROUP {group.name}: from {group.first.name} [{group.first_id}] to {ln} [{lid}]',
                 # Skip over when SCATTERED in the group:
-                f'    if (SCATTERED) _particle->_index = {lid}; '
+                f'    if (SCATTERED) _particle->_index = {1+lid}; '
                 '// when SCATTERED in GROUP: reach exit of GROUP after {ln}',
                 #
             ])
             if index == lid:
                 lines.append('    else ABSORBED=1; // Not SCATTERED by end of GROUP: removes left events')
-            else:
+            elif ok_to_skip[index]:
                 lines.append("      else ABSORBED=0; // not SCATTERED within GROUP: always tries next")
+            else:
+                lines.append("      else particle_restore(_particle, &_particle_save); "
+                             "// not SCATTERED within GROUP: always tries next, with the state before this one")
 
         lines.append("        _particle->_index++;")
         lines.append("      }")
-- 
2.43.0


From dbc287e26e62e270ded8b7dee66fe1999b26123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 007/104] fix: a reference to no earlier component is refused
 instead of being read as ABSOLUTE

---
 src/mccode_antlr/instr/visitor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index d9e06d1..03996ed 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -256,19 +256,19 @@ class InstrVisitor(McInstrVisitor):
             # Any included component can be referred to -- REMOVABLE components in an included instrument
             # were _not_ included into the state. Include REMOVABLE components _are_ in the state.
             instances = len(self.state.components)
+            if count < 1:
+                raise RuntimeError(f'PREVIOUS({count}) does not refer to an earlier component instance')
             if count <= instances:
                 return self.state.last_component(count, removable_ok=True)
             elif self.destination is not None:
                 return self.destination.last_component(count - instances, removable_ok=True)
-            else:
-                logger.error(f'Too large PREVIOUS count {count} for instrument with {instances} component instances')
+            raise RuntimeError(f'Too large PREVIOUS count {count} for instrument with {instances} component instances')
         name = str(ctx.Identifier())
         if any(inst.name == name for inst in self.state.components):
             return self.state.get_component(name)
         elif self.destination is not None:
             return self.destination.get_component(name)
-        else:
-            logger.error(f'Unknown component reference for instance named {name}')
+        raise RuntimeError(f'Unknown component reference for instance named {name}')
 
     def visitCoords(self, ctx: McInstrParser.CoordsContext):
         # FIXME 2023-10-16 previously Coordinate parsing forced all returned Expression objects to be floats
-- 
2.43.0


From f67b7057571c705701161f8e6b4a2e5de885ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 008/104] fix: MYSELF in an expression raised instead of naming
 the instance

---
 src/mccode_antlr/instr/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 03996ed..46c9a43 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -378,7 +378,7 @@ class InstrVisitor(McInstrVisitor):
 
     def visitExpressionMyself(self, ctx: McInstrParser.ExpressionMyselfContext):
         # The even-worse expression use of MYSELF to refer to the current being-constructed component's name
-        return Expr.str(self.current_instance.name)
+        return Expr.str(self.current_instance_name)
 
 
 class InstrParametersVisitor(McInstrVisitor):
@@ -432,7 +432,7 @@ class InstrParametersVisitor(McInstrVisitor):
 
     def visitExpressionMyself(self, ctx: McInstrParser.ExpressionMyselfContext):
         # The even-worse expression use of MYSELF to refer to the current being-constructed component's name
-        return Expr.str(self.current_instance.name)
+        return Expr.str(self.current_instance_name)
 
 
 add_common_visitors(InstrVisitor)
-- 
2.43.0


From 129e0603e84d4dc5011444f9e59050a0cbda0180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 009/104] fix: the target of a JUMP is found in the instrument
 being translated, a copied or split-off JUMP went elsewhere

---
 src/mccode_antlr/instr/instance.py     |  5 +++--
 src/mccode_antlr/instr/jump.py         | 11 +++++++++++
 src/mccode_antlr/translators/target.py | 18 ++++++++++--------
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index e436a05..4abb8a5 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -92,7 +92,7 @@ class Instance:
                    parameters=tuple([par for par in ref.parameters]),
                    when=ref.when, group=ref.group,
                    extend=tuple([ext for ext in ref.extend]),
-                   jump=tuple([jmp for jmp in ref.jump]),
+                   jump=tuple([jmp.copy() for jmp in ref.jump]),
                    metadata=tuple([md for md in ref.metadata]),
                    mode=ref.mode)
 
@@ -228,7 +228,8 @@ class Instance:
         return Instance(self.name, self.type, self.at_relative, self.rotate_relative,
                         orientation=self.orientation, parameters=self.parameters,
                         removable=self.removable, cpu=self.cpu, split=self.split, when=self.when,
-                        group=self.group, extend=self.extend, jump=self.jump, metadata=self.metadata)
+                        group=self.group, extend=self.extend, jump=tuple(jmp.copy() for jmp in self.jump),
+                        metadata=self.metadata, mode=self.mode)
 
     def parameter_used(self, name: str):
         if any([name in par.value for par in self.parameters]):
diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 261b35a..f94a86c 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -10,6 +10,17 @@ class Jump:
     condition: Expr
     absolute_target: int = -1
 
+    @property
+    def is_relative(self) -> bool:
+        """Whether the target is found by counting from the jump's own component, otherwise it is found by name"""
+        from re import fullmatch
+        if self.target.upper() == 'MYSELF':
+            return True
+        return self.relative_target != 0 and fullmatch(r'(PREVIOUS|NEXT)(_\d+)?', self.target.upper()) is not None
+
+    def copy(self):
+        return Jump(self.target, self.relative_target, self.iterate, self.condition)
+
     def to_file(self, output, wrapper):
         # self.target is one of "PREVIOUS", "PREVIOUS_{i}, "MYSELF", "MYSELF_{i}, "NEXT",
         # or "{component instance identifier}"
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index d2d4f1c..0bcd264 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -219,15 +219,17 @@ class TargetVisitor:
     def set_jump_absolute_targets(self):
         for index, jump in [(i, j) for i, c in enumerate(self.source.components) for j in c.jump]:
             # jump is a dataclass with 'target', 'index', 'iterate', 'condition', and 'actual_target_index'
-            if jump.absolute_target > -1:
-                # Somewhere/something already set the actual target index -- we don't have a choice but to trust it
-                continue
-            if jump.relative_target == 0 and jump.target.lower() != 'myself':
-                # the target is another named component:
-                jump.absolute_target = [i for i, c in enumerate(self.source.components) if jump.target == c.name][0]
-                jump.relative_target = jump.absolute_target - index
+            # The position of a target depends on the instrument the jump is in, which need not be the one (if any) for
+            # which it was last determined: the jump might have come from another by copying or splitting.
+            if jump.is_relative:
+                target = index + jump.relative_target
             else:
-                jump.absolute_target = index + jump.relative_target
+                # the target is another named component:
+                target = next((i for i, c in enumerate(self.source.components) if jump.target == c.name), -1)
+            if target not in range(len(self.source.components)):
+                name = self.source.components[index].name
+                raise RuntimeError(f'The JUMP in {name} to {jump.target} has no target in {self.source.name}')
+            jump.absolute_target = target
 
     def enter_trace(self):
         pass
-- 
2.43.0


From c34ede779eb37661e7ac25c368abbd007ae4103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 010/104] fix: metadata inherited by a copied instance is the
 copy's, it was attributed to the original

---
 src/mccode_antlr/instr/instance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 4abb8a5..6613205 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -93,7 +93,9 @@ class Instance:
                    when=ref.when, group=ref.group,
                    extend=tuple([ext for ext in ref.extend]),
                    jump=tuple([jmp.copy() for jmp in ref.jump]),
-                   metadata=tuple([md for md in ref.metadata]),
+                   # an inherited entry is the copy's own, and must be found under its name
+                   metadata=tuple([MetaData.from_instance_tokens(name, md.mimetype, md.name, md.value)
+                                   for md in ref.metadata]),
                    mode=ref.mode)
 
     def __post_init__(self):
-- 
2.43.0


From e24001e650a8b1c8bf8b170b90c33e950bfcfd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:04 +0000
Subject: [PATCH 011/104] fix: an instrument included by an included one can
 refer to everything before it, and anonymous names count it

---
 src/mccode_antlr/instr/visitor.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 46c9a43..8637c6e 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -77,12 +77,14 @@ class InstrVisitor(McInstrVisitor):
     def visitInstrument_trace(self, ctx: McInstrParser.Instrument_traceContext):
         return self.visitChildren(ctx)
 
+    def earlier(self) -> Instr:
+        """Everything an %include at this point can refer to: this instrument follows what it is itself included in"""
+        before = () if self.destination is None else self.destination.components
+        return Instr(self.state.name, components=before + self.state.components)
+
     def visitInstrument_trace_include(self, ctx: McInstrParser.Instrument_trace_includeContext):
         quoted_filename = str(ctx.StringLiteral())
-        if self.destination is not None:
-            logger.critical(f'including {quoted_filename} from {self.filename}, which is itself included from {self.destination.name}')
-            logger.critical('Expect component referencing errors, as the implementation does not cover this use case.')
-        instr = self.parent.get_instrument(quoted_filename.strip('"'), destination=self.state)
+        instr = self.parent.get_instrument(quoted_filename.strip('"'), destination=self.earlier())
         # TODO work out how/what to copy from the other instrument into this one
         self.state.add_included(instr.name)
         for par in instr.parameters:
@@ -157,10 +159,10 @@ class InstrVisitor(McInstrVisitor):
         self.current_instance_name = None
 
     def visitInstanceNameCopyIdentifier(self, ctx: McInstrParser.InstanceNameCopyIdentifierContext):
-        return f'{ctx.Identifier()}_{len(self.state.components)+1}'
+        return f'{ctx.Identifier()}_{len(self.earlier().components)+1}'
 
     def visitInstanceNameCopy(self, ctx: McInstrParser.InstanceNameCopyContext):
-        return f'Comp_{len(self.state.components) + 1}'
+        return f'Comp_{len(self.earlier().components) + 1}'
 
     def visitInstanceNameIdentifier(self, ctx: McInstrParser.InstanceNameIdentifierContext):
         return str(ctx.Identifier())
-- 
2.43.0


From b4a1adf80c7271de2a92601aab5c105dc491ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:04 +0000
Subject: [PATCH 012/104] fix: an instrument known only to an in-memory
 registry could not be read

---
 src/mccode_antlr/reader/reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index c9c35da..3cd66e3 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -155,9 +155,11 @@ class Reader:
         if path.exists() and path.is_file():
             source = path.read_text()
         else:
-            path = self.locate(path.name)  # include the .instr for the search
-            source = self.contents(path.name)
-        filename = str(path.resolve())
+            file_name = path.name  # include the .instr for the search
+            path = self.locate(file_name)
+            source = self.contents(file_name)
+        # an in-memory registry can hold an instrument which has no path
+        filename = str(name) if path is None else str(path.resolve())
 
         stream = InputStream(source)
         error_listener = make_reader_error_listener(
-- 
2.43.0


From 821745de918f817bead7d33b6eb81d160f96866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 013/104] fix: the DEPENDENCY of an instrument file, or of one
 it includes, was lost

---
 src/mccode_antlr/instr/visitor.py | 1 +
 src/mccode_antlr/reader/reader.py | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 8637c6e..d5f8e48 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -85,6 +85,7 @@ class InstrVisitor(McInstrVisitor):
     def visitInstrument_trace_include(self, ctx: McInstrParser.Instrument_trace_includeContext):
         quoted_filename = str(ctx.StringLiteral())
         instr = self.parent.get_instrument(quoted_filename.strip('"'), destination=self.earlier())
+        self.state.flags += instr.flags
         # TODO work out how/what to copy from the other instrument into this one
         self.state.add_included(instr.name)
         for par in instr.parameters:
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index 3cd66e3..274283c 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -172,6 +172,8 @@ class Reader:
         if not isinstance(res, Instr):
             raise RuntimeError(f'Parsing instrument file {filename} did not produce an Instr object')
         res.source = filename
-        res.flags = tuple(self.c_flags)
+        if destination is None:
+            # the including instrument gets the flags of all components from whatever reads it
+            res.flags += tuple(self.c_flags)
         res.registries = tuple(self.registries)
         return res
-- 
2.43.0


From 0a693bbae203544b825817f8a8efdd406597a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:46 +0000
Subject: [PATCH 014/104] fix: setting an instance parameter to NULL gave it an
 empty string

---
 src/mccode_antlr/instr/instance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 6613205..471373a 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -137,6 +137,9 @@ class Instance:
         if p.value.is_vector and isinstance(value, str):
             # FIXME can this be more general? Do we _need_ to treat vectors differently?
             value = Expr(Value(value, data_type=p.value.data_type, shape_type=p.value.shape_type))
+        elif isinstance(value, str) and value.strip() == 'NULL':
+            # not an expression, but a parameter can be set to it
+            value = Expr.str('NULL')
         elif isinstance(value, str):
             value = Expr.parse(value)
         elif not isinstance(value, Expr):
-- 
2.43.0


From a2513375083f97796d4c6e3bb6e477512d3b719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 015/104] fix: instance text lost REMOVABLE, SPLIT, a null
 ABSOLUTE rotation, and garbled JUMP targets

---
 src/mccode_antlr/instr/instance.py | 7 ++++++-
 src/mccode_antlr/instr/jump.py     | 6 +++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 471373a..283580a 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -38,8 +38,12 @@ class Instance:
         return f'Instance({self.name}, {self.type.name})'
 
     def to_file(self, output, wrapper=None, full=True):
+        if self.removable:
+            print(wrapper.line('REMOVABLE', []), file=output, end='')
         if self.cpu:
             print(wrapper.line('CPU', []), file=output, end='')
+        if self.split is not None:
+            print(wrapper.line('SPLIT', [wrapper.escape(str(self.split)) + ' ']), file=output, end='')
 
         instance_parameters = wrapper.hide(', '.join(p.to_string(wrapper=wrapper) for p in self.parameters))
         line = wrapper.bold('COMPONENT') + f' {self.name} = {self.type.name}({instance_parameters}) '
@@ -54,7 +58,8 @@ class Instance:
 
         # The "AT ..." statement is required even when it is "AT (0, 0, 0) ABSOLUTE"
         line += rf('AT', self.at_relative, required=True) + ' '
-        line += rf('ROTATED', self.rotate_relative) + wrapper.br()
+        # and without a "ROTATED ..." the rotation reference is the same as the position reference
+        line += rf('ROTATED', self.rotate_relative, required=self.at_relative[1] is not None) + wrapper.br()
         print(line, file=output, end='')
 
         if not full:
diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index f94a86c..4a7d83b 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -25,10 +25,10 @@ class Jump:
         # self.target is one of "PREVIOUS", "PREVIOUS_{i}, "MYSELF", "MYSELF_{i}, "NEXT",
         # or "{component instance identifier}"
         jump_name = self.target
-        if '_' in jump_name and (jump_name.startswith('PREVIOUS') or jump_name.startswith('NEXT')):
+        if self.is_relative and self.relative_target != 0:
             jump_name = jump_name.split('_')[0]
-        if abs(self.relative_target) > 1:
-            jump_name += f' ({abs(self.relative_target)})'
+            if abs(self.relative_target) > 1:
+                jump_name += f' ({abs(self.relative_target)})'
         when_iter = 'ITERATE' if self.iterate else 'WHEN'
         print(wrapper.line('JUMP', [jump_name, when_iter, str(self.condition)]), file=output)
 
-- 
2.43.0


From 701ab94540a8d8d0e2dbdd2a10ab1e132f8efaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 016/104] fix: instrument parameters with an empty or unquoted
 unit were written as invalid text

---
 src/mccode_antlr/common/parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/parameters.py b/src/mccode_antlr/common/parameters.py
index 0c9f9c6..46a3502 100644
--- a/src/mccode_antlr/common/parameters.py
+++ b/src/mccode_antlr/common/parameters.py
@@ -19,8 +19,9 @@ class InstrumentParameter:
         elif self.value.data_type == DataType.int:
             line = 'int '
         line = wrapper.datatype(line) + wrapper.parameter(self.name)
-        if self.unit is not None:
-            line += wrapper.unit(self.unit)
+        if self.unit:
+            quoted = len(self.unit) > 1 and self.unit[0] == '"' and self.unit[-1] == '"'
+            line += wrapper.unit(self.unit if quoted else f'"{self.unit}"')
         if self.value.has_value:
             line += "=" + wrapper.value(self.value)
         print(line, file=output)
-- 
2.43.0


From 6dbcc0a13ca2884ff69e6bddb756faba257461fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 017/104] fix: metadata and code blocks gained lines each time
 they were written and read, some metadata names did not parse

---
 src/mccode_antlr/common/metadata.py | 4 +++-
 src/mccode_antlr/common/textwrap.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/common/metadata.py b/src/mccode_antlr/common/metadata.py
index 81789bd..e91ee5d 100644
--- a/src/mccode_antlr/common/metadata.py
+++ b/src/mccode_antlr/common/metadata.py
@@ -40,7 +40,9 @@ class MetaData:
     value: str
 
     def to_file(self, output, wrapper):
-        print(wrapper.metadata_group('METADATA', self.mimetype, self.name, self.value), file=output)
+        quoted = len(self.name) > 1 and self.name[0] == '"' and self.name[-1] == '"'
+        name = self.name if quoted else f'"{self.name}"'
+        print(wrapper.metadata_group('METADATA', self.mimetype, name, self.value), file=output)
 
     @staticmethod
     def partial_from_tokens(source: DataSource, mimetype: str, name: str, value: str):
diff --git a/src/mccode_antlr/common/textwrap.py b/src/mccode_antlr/common/textwrap.py
index eee8687..8809768 100644
--- a/src/mccode_antlr/common/textwrap.py
+++ b/src/mccode_antlr/common/textwrap.py
@@ -132,7 +132,8 @@ class TextWrapper(BaseWrapper):
         return '*/'
 
     def block(self, name: str, content: str) -> str:
-        return '\n'.join([name + '\n%{\n', content + '\n%}\n'])
+        # any space added around the content would become part of it
+        return name + '\n%{' + content + '%}\n'
 
     def line(self, name: str, items: list[str], sep: str = ' ') -> str:
         items = [item or 'None' for item in items]
@@ -147,7 +148,8 @@ class TextWrapper(BaseWrapper):
 
     @staticmethod
     def metadata_group(name: str, mimetype: str, item: str, value: str) -> str:
-        return f'{name} "{mimetype}" {item} \n%{{\n{value}\n%}}\n'
+        # any space added around the value would become part of it
+        return f'{name} "{mimetype}" {item} \n%{{{value}%}}\n'
 
     @staticmethod
     def datatype(data_type: str) -> str:
-- 
2.43.0


From b7cce34d3cc7f57c0547068182755315933bb6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 018/104] fix: component DEPENDENCY flags were repeated each
 time an instrument was written and read

---
 src/mccode_antlr/comp/visitor.py | 5 ++++-
 src/mccode_antlr/instr/instr.py  | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 1eb543a..6a2a24b 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -136,7 +136,10 @@ class CompVisitor(McCompVisitor):
     def visitDependency(self, ctx: Parser.DependencyContext):
         if ctx.StringLiteral() is not None:
             # the flags are the literal string without its quotes:
-            self.parent.add_c_flags(str(ctx.StringLiteral()).strip('"'))
+            flags = str(ctx.StringLiteral()).strip('"')
+            self.parent.add_c_flags(flags)
+            # a copied definition needs the flags of the original, too
+            self.state.dependency = flags if self.state.dependency is None else f'{self.state.dependency} {flags}'
 
     def visitDeclareBlock(self, ctx: Parser.DeclareBlockContext):
         self.state.DECLARE(self.visit(ctx.unparsed_block()))
diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 0acb67b..da95529 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -54,8 +54,11 @@ class Instr:
 
         for metadata in self.metadata:
             metadata.to_file(output=output, wrapper=wrapper)
-        if self.flags:
-            print(wrapper.quoted_line('DEPENDENCY ', list(self.flags)), file=output)
+        # the flags stated by component definitions are found again when those are read
+        provided = {f' {inst.type.dependency} ' for inst in self.components if inst.type.dependency}
+        flags = [flag for flag in self.flags if not any(f' {flag} ' in x for x in provided)]
+        if flags:
+            print(wrapper.quoted_line('DEPENDENCY ', flags), file=output)
 
         if self.declare:
             print(wrapper.block('DECLARE', _join_rawc_tuple(self.declare)), file=output)
-- 
2.43.0


From 53aff7e5bc621689265f99267b5ff726ba2ead05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:27 +0000
Subject: [PATCH 019/104] fix: instance text ran the ROTATED reference together
 with the following keyword

---
 src/mccode_antlr/instr/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 283580a..1be53b5 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -59,7 +59,7 @@ class Instance:
         # The "AT ..." statement is required even when it is "AT (0, 0, 0) ABSOLUTE"
         line += rf('AT', self.at_relative, required=True) + ' '
         # and without a "ROTATED ..." the rotation reference is the same as the position reference
-        line += rf('ROTATED', self.rotate_relative, required=self.at_relative[1] is not None) + wrapper.br()
+        line += rf('ROTATED', self.rotate_relative, required=self.at_relative[1] is not None) + ' ' + wrapper.br()
         print(line, file=output, end='')
 
         if not full:
-- 
2.43.0


From dca5fe7013ed78381bfe9e64e48d9aa958fb20ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 020/104] fix: expressions with a sign after an operator lost
 the factor before it, and % << >> ! ?: did not group as in C

---
 src/mccode_antlr/common/visitor.py | 218 +++++++++++++++--------------
 1 file changed, 116 insertions(+), 102 deletions(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index d262d29..d47fab1 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -9,11 +9,106 @@ def getExpr(obj, ctx):
     return obj.visit(ctx)
 
 # TODO (maybe) Add control and statements into McCode, requiring some form of global stack.
-def visitExpressionUnaryPM(obj, ctx):
-    right = obj.visit(ctx.expr())
-    if isinstance(right, str):
-        return '-' + right if ctx.Plus() is None else right
-    return -right if ctx.Plus() is None else right
+
+# How tightly the binary operators bind, in C (plus exponentiation). All but exponentiation group from left to right.
+_BINDS = {
+    '^': 16, '*': 15, '/': 15, '%': 15, '+': 14, '-': 14, '<<': 13, '>>': 13,
+    '<': 12, '<=': 12, '>': 12, '>=': 12, '==': 11, '!=': 11, '&&': 10, '||': 9,
+}
+_TERNARY = 2
+_NAMES = {'!=': '__neq__', '==': '__eq__', '<=': '__le__', '>=': '__ge__', '<': '__lt__', '>': '__gt__',
+          '&&': '__and__', '||': '__or__', '%': '%', '<<': '<<', '>>': '>>'}
+_OPERATIONS = (
+    'UnaryPM', 'Exponentiation', 'BinaryMD', 'BinaryPM', 'BinaryMod', 'BinaryRightShift', 'BinaryLeftShift',
+    'BinaryNotEqual', 'BinaryEqual', 'BinaryLessEqual', 'BinaryGreaterEqual', 'BinaryLess', 'BinaryGreater',
+    'UnaryLogic', 'BinaryLogic', 'TrinaryLogic'
+)
+
+
+def _is_empty(ctx):
+    return ctx.getChildCount() == 0 and type(ctx).__name__ == 'ExpressionStringContext'
+
+
+def _flatten(ctx):
+    """The operands (contexts) and operators (text) of nested operations, in order
+
+    The grammar allows the empty string to be an expression, so that any sign can be taken to be a binary operator;
+    such empty operands were never written.
+    """
+    if type(ctx).__name__ in [f'Expression{name}Context' for name in _OPERATIONS]:
+        for child in ctx.getChildren():
+            if hasattr(child, 'getSymbol'):
+                yield str(child)
+            else:
+                yield from _flatten(child)
+    elif not _is_empty(ctx):
+        yield ctx
+
+
+class _Operations:
+    """Group a list of operands and operators by how tightly the operators bind"""
+    def __init__(self, obj, items):
+        self.obj = obj
+        self.items = list(items)
+        self.at = 0
+
+    @property
+    def next(self):
+        return self.items[self.at] if self.at < len(self.items) else None
+
+    def take(self):
+        item = self.next
+        self.at += 1
+        return item
+
+    def operand(self, least):
+        item = self.take()
+        if item is None:
+            raise RuntimeError('Missing operand in expression')
+        if not isinstance(item, str):
+            return self.obj.visit(item)
+        if item == '!':
+            return Expr(UnaryOp('__not__', self.operand(_BINDS['^'])))
+        if item not in ('+', '-'):
+            raise RuntimeError(f'Missing operand before {item} in expression')
+        right = self.expression(max(least, _BINDS['*']))
+        return right if item == '+' else -right
+
+    def expression(self, least=0):
+        left = self.operand(least)
+        while isinstance(self.next, str):
+            op = self.next
+            if op == '?' and _TERNARY >= least:
+                self.take()
+                true = self.expression()
+                if self.take() != ':':
+                    raise RuntimeError('Expected : in expression')
+                left = Expr(TrinaryOp('__trinary__', left, true, self.expression(_TERNARY)))
+            elif _BINDS.get(op, -1) >= least:
+                self.take()
+                left = self.binary(op, left, self.expression(_BINDS[op] + (op != '^')))
+            else:
+                break
+        return left
+
+    @staticmethod
+    def binary(op, left, right):
+        if op == '+':
+            return left + right
+        if op == '-':
+            return left - right
+        if op == '*':
+            return left * right
+        if op == '/':
+            return left / right
+        if op == '^':
+            return left ** right
+        return Expr(BinaryOp(_NAMES[op], left, right))
+
+
+def visitOperation(obj, ctx):
+    return _Operations(obj, _flatten(ctx)).expression()
+
 
 def visitExpressionGrouping(obj, ctx):
     return Expr(UnaryOp('__group__', obj.visit(ctx.expr())))
@@ -47,98 +142,17 @@ def visitExpressionInteger(obj, ctx):
 def visitExpressionZero(obj, ctx):
     return Expr.int(0)
 
-def visitExpressionExponentiation(obj, ctx):
-    base, exponent = [obj.visit(ex) for ex in ctx.expr()]
-    return base ** exponent
-
-def visitExpressionBinaryPM(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return left + right if ctx.Minus() is None else left - right
-
 def visitExpressionFunctionCall(obj, ctx):
     function = Value(str(ctx.Identifier()), object_type=ObjectType.function)
     # `ctx.args` isn't exposed by speedy-antlr-tool, but the function call is
     args = [obj.visit(arg).expr[0] for arg in ctx.expr()]  # each is a Value, UnaryOp, or BinaryOp?
     return Expr(BinaryOp('__call__', function, args))
 
-def visitExpressionBinaryMD(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return left * right if ctx.Div() is None else left / right
-
-def visitExpressionBinaryMod(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('%', left, right))
-
-def visitExpressionBinaryLeftShift(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('<<', left, right))
-
-def visitExpressionBinaryRightShift(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('>>', left, right))
-
 def visitInitializerlist(obj, ctx):
     # `ctx.values` is not exposed by speedy-antlr-tool
     values = [obj.visit(x).expr[0].value for x in ctx.expr()]
     return Expr(Value(values, object_type=ObjectType.initializer_list, shape_type=ShapeType.vector))
 
-def visitExpressionUnaryLogic(obj, ctx):
-    expr = obj.visit(ctx.expr())
-    op = 'unknown'
-    if ctx.Not() is not None:
-        op = '__not__'
-    return Expr(UnaryOp(op, expr))
-
-def visitExpressionBinaryLogic(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    op = 'unknown'
-    if ctx.AndAnd() is not None:
-        op = '__and__'
-    elif ctx.OrOr() is not None:
-        op = '__or__'
-    return Expr(BinaryOp(op, left, right))
-
-def visitExpressionTrinaryLogic(obj, ctx):
-    # `ctx.test`, `ctx.true_`, and `ctx._false` not exposed by speedy-antlr-tool
-    test, true, false = [obj.visit(x) for x in ctx.expr()]
-    return Expr(TrinaryOp('__trinary__', test, true, false))
-
-def visitExpressionBinaryNotEqual(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__neq__', left, right))
-
-def visitExpressionBinaryEqual(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__eq__', left, right))
-
-def visitExpressionBinaryLessEqual(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__le__', left, right))
-
-def visitExpressionBinaryGreaterEqual(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__ge__', left, right))
-
-def visitExpressionBinaryLess(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__lt__', left, right))
-
-def visitExpressionBinaryGreater(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__gt__', left, right))
-
 def visitExpressionString(obj, ctx):
     strings = ''.join(str(sl).strip('"') for sl in ctx.StringLiteral())
     return Expr.str(f'"{strings}"')
@@ -146,7 +160,7 @@ def visitExpressionString(obj, ctx):
 
 common_visitors = (
     ('getExpr', getExpr),
-    ('visitExpressionUnaryPM', visitExpressionUnaryPM),
+    ('visitExpressionUnaryPM', visitOperation),
     ('visitExpressionGrouping', visitExpressionGrouping),
     ('visitExpressionFloat', visitExpressionFloat),
     ('visitExpressionPointerAccess', visitExpressionPointerAccess),
@@ -155,23 +169,23 @@ common_visitors = (
     ('visitExpressionIdentifier', visitExpressionIdentifier),
     ('visitExpressionInteger', visitExpressionInteger),
     ('visitExpressionZero', visitExpressionZero),
-    ('visitExpressionExponentiation', visitExpressionExponentiation),
-    ('visitExpressionBinaryPM', visitExpressionBinaryPM),
+    ('visitExpressionExponentiation', visitOperation),
+    ('visitExpressionBinaryPM', visitOperation),
     ('visitExpressionFunctionCall', visitExpressionFunctionCall),
-    ('visitExpressionBinaryMD', visitExpressionBinaryMD),
-    ('visitExpressionBinaryMod', visitExpressionBinaryMod),
-    ('visitExpressionBinaryLeftShift', visitExpressionBinaryLeftShift),
-    ('visitExpressionBinaryRightShift', visitExpressionBinaryRightShift),
+    ('visitExpressionBinaryMD', visitOperation),
+    ('visitExpressionBinaryMod', visitOperation),
+    ('visitExpressionBinaryLeftShift', visitOperation),
+    ('visitExpressionBinaryRightShift', visitOperation),
     ('visitInitializerlist', visitInitializerlist),
-    ('visitExpressionUnaryLogic', visitExpressionUnaryLogic),
-    ('visitExpressionBinaryLogic', visitExpressionBinaryLogic),
-    ('visitExpressionTrinaryLogic', visitExpressionTrinaryLogic),
-    ('visitExpressionBinaryNotEqual', visitExpressionBinaryNotEqual),
-    ('visitExpressionBinaryEqual', visitExpressionBinaryEqual),
-    ('visitExpressionBinaryLessEqual', visitExpressionBinaryLessEqual),
-    ('visitExpressionBinaryGreaterEqual', visitExpressionBinaryGreaterEqual),
-    ('visitExpressionBinaryLess', visitExpressionBinaryLess),
-    ('visitExpressionBinaryGreater', visitExpressionBinaryGreater),
+    ('visitExpressionUnaryLogic', visitOperation),
+    ('visitExpressionBinaryLogic', visitOperation),
+    ('visitExpressionTrinaryLogic', visitOperation),
+    ('visitExpressionBinaryNotEqual', visitOperation),
+    ('visitExpressionBinaryEqual', visitOperation),
+    ('visitExpressionBinaryLessEqual', visitOperation),
+    ('visitExpressionBinaryGreaterEqual', visitOperation),
+    ('visitExpressionBinaryLess', visitOperation),
+    ('visitExpressionBinaryGreater', visitOperation),
     ('visitExpressionString', visitExpressionString),
 )
 
-- 
2.43.0


From 7d7d2b81bfd7dea0239a1a093955ab1b68e3f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 021/104] fix: expressions were written without the parentheses
 their meaning needs, and gained some each time they were read and written

---
 src/mccode_antlr/common/expression.py | 132 +++++++++++++++++---------
 1 file changed, 88 insertions(+), 44 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 5726035..61b056f 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -183,12 +183,28 @@ class DataType(Enum):
         raise RuntimeError(f"No known conversion from non-enumerated data type {self}")
 
 
-def _comb(f, s: list):
-    return ','.join(f(x) for x in s)
-
-
-def _fmt_comb(fmt, s: list):
-    return ','.join(f'{x:{fmt}}' for x in s)
+# How tightly operators bind in McCode expressions; operands which bind less tightly than required are parenthesised
+_BINDS = {
+    '__not__': 17,
+    '__pow__': 16,
+    '*': 15, '/': 15, '//': 15, '%': 15,
+    '+': 14, '-': 14,
+    '<<': 13, '>>': 13,
+    '__lt__': 12, '__le__': 12, '__gt__': 12, '__ge__': 12,
+    '__eq__': 11, '__neq__': 11,
+    '__and__': 10,
+    '__or__': 9,
+    '__trinary__': 2,
+}
+_PRIMARY = 20
+
+
+def _operand(f, s: list, least: int):
+    """The text of one operand (a one-element list), in parentheses if it binds less tightly than its operator needs"""
+    if len(s) != 1:
+        return ','.join(f(x, False) for x in s)
+    text = f(s[0], False)
+    return text if s[0].binds >= least else f'({text})'
 
 
 class Op:
@@ -199,6 +215,29 @@ class Op:
     def __hash__(self):
         return hash(str(self))
 
+    @property
+    def binds(self):
+        return _PRIMARY
+
+    def _text(self, f, whole):
+        """The text of the operation, with the text of values provided by f; whole if it is not the operand of another"""
+        raise NotImplementedError()
+
+    def __str__(self):
+        return self._text(str, True)
+
+    def __format__(self, format_spec):
+        return self._text(lambda x: format(x, format_spec), True)
+
+    def __repr__(self):
+        return self._text(repr, True)
+
+    def _operand(self, f, s: list, least: int):
+        return _operand(lambda x, whole: x._text(f, whole) if isinstance(x, Op) else f(x), s, least)
+
+    def _arguments(self, f, s: list):
+        return ','.join(x._text(f, True) if isinstance(x, Op) else f(x) for x in s)
+
     def __int__(self):
         raise RuntimeError('No conversion to int for operations')
 
@@ -316,20 +355,17 @@ class TrinaryOp(Op):
         third = [x.as_type(pdt) for x in self.third]
         return TrinaryOp(self.op, first, second, third)
 
-    def _str_repr_(self, first, second, third):
-        if '__trinary__' == self.op:
-            if self.style == 'C':
-                return f'{first} ? {second} : {third}'
-            return f'{second} if {first} else {third}'
-
-    def __str__(self):
-        return self._str_repr_(_comb(str, self.first), _comb(str, self.second), _comb(str, self.third))
-
-    def __format__(self, format_spec):
-        return self._str_repr_(_fmt_comb(format_spec, self.first), _fmt_comb(format_spec, self.second), _fmt_comb(format_spec, self.third))
+    @property
+    def binds(self):
+        return _BINDS['__trinary__']
 
-    def __repr__(self):
-        return self._str_repr_(_comb(repr, self.first), _comb(repr, self.second), _comb(repr, self.third))
+    def _text(self, f, whole):
+        first = self._operand(f, self.first, self.binds + 1)
+        second = self._operand(f, self.second, 0)
+        third = self._operand(f, self.third, self.binds)
+        if self.style == 'C':
+            return f'{first} ? {second} : {third}'
+        return f'{second} if {first} else {third}'
 
     def __eq__(self, other):
         if not isinstance(other, TrinaryOp):
@@ -410,7 +446,18 @@ class BinaryOp(Op):
         right = [x.as_type(pdt) for x in self.right]
         return BinaryOp(self.op, left, right)
 
-    def _str_repr_(self, lstr, rstr):
+    @property
+    def binds(self):
+        return _BINDS.get(self.op, _PRIMARY)
+
+    def _text(self, f, whole):
+        if self.binds == _PRIMARY:
+            lstr, rstr = self._arguments(f, self.left), self._arguments(f, self.right)
+        else:
+            # all but exponentiation group from left to right
+            right_first = '__pow__' == self.op
+            lstr = self._operand(f, self.left, self.binds + right_first)
+            rstr = self._operand(f, self.right, self.binds + (not right_first))
         if '__call__' == self.op:
             return f'{lstr}({rstr})'
         if '__struct_access__' == self.op:
@@ -438,7 +485,7 @@ class BinaryOp(Op):
         if '__and__' == self.op:
             return f'{lstr} && {rstr}' if 'C' == self.style else f'{lstr} and {rstr}'
         if any(x == self.op for x in ('+', '-', '%', '<<', '>>')):
-            return f'({lstr} {self.op} {rstr})'
+            return f'({lstr} {self.op} {rstr})' if whole else f'{lstr} {self.op} {rstr}'
         if self.op == '//' and 'C' == self.style:
             # Verify that the operands are integers before reducing to a single slash?
             return f'{lstr} / {rstr}'
@@ -446,15 +493,6 @@ class BinaryOp(Op):
             return f'{lstr} {self.op} {rstr}'
         return f'{self.op}({lstr}, {rstr})'
 
-    def __str__(self):
-        return self._str_repr_(_comb(str, self.left), _comb(str, self.right))
-
-    def __format__(self, format_spec):
-        return self._str_repr_(_fmt_comb(format_spec, self.left), _fmt_comb(format_spec, self.right))
-
-    def __repr__(self):
-        return self._str_repr_(_comb(repr, self.left), _comb(repr, self.right))
-
     def __eq__(self, other):
         if not isinstance(other, BinaryOp):
             return False
@@ -553,23 +591,23 @@ class UnaryOp(Op):
         value = [x.as_type(pdt) for x in self.value]
         return UnaryOp(self.op, value)
 
-    def _str_repr_(self, vstr):
+    @property
+    def binds(self):
+        if self.op in ('+', '-') and len(self.value) == 1:
+            # the sign of a product or ratio is written before its first factor
+            return min(max(self.value[0].binds, _BINDS['*']), _BINDS['__pow__'])
+        return _BINDS['__not__'] if self.op == '__not__' else _PRIMARY
+
+    def _text(self, f, whole):
         if '__group__' == self.op:
-            return f'({vstr})'
+            return f'({self._operand(f, self.value, 0)})'
         if '__not__' == self.op:
+            vstr = self._operand(f, self.value, self.binds)
             return f'!{vstr}' if 'C' == self.style else f'not {vstr}'
-        if any(x in self.op for x in '+-'):
-            return f'{self.op}{vstr}'
-        return f'{self.op}({vstr})'
-
-    def __str__(self):
-        return self._str_repr_(_comb(str, self.value))
-
-    def __format__(self, format_spec):
-        return self._str_repr_(_fmt_comb(format_spec, self.value))
-
-    def __repr__(self):
-        return self._str_repr_(_comb(repr, self.value))
+        if any(x == self.op for x in '+-'):
+            vstr = self._operand(f, self.value, _BINDS['*'])
+            return f'{self.op}({vstr})' if vstr.startswith(('+', '-')) else f'{self.op}{vstr}'
+        return f'{self.op}({self._arguments(f, self.value)})'
 
     def __neg__(self):
         if self.op == '-':
@@ -707,6 +745,12 @@ class Value:
             prefix = "_instrument_var._parameters."
         return f'{prefix}{self.value}' if self.is_parameter else f'{self.value}'
 
+    @property
+    def binds(self):
+        # a negative number is written with the unary minus operator
+        negative = isinstance(self.value, (int, float)) and self.value < 0
+        return _BINDS['__pow__'] if negative and not self.is_id else _PRIMARY
+
     def _str_repr_(self):
         return str(self.value)
 
-- 
2.43.0


From ba74f981f72231e41128d0637f75ef663fab0782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:02 +0000
Subject: [PATCH 022/104] fix: powers and sums of operations, simplified
 operations inside others, and 0^n

---
 src/mccode_antlr/common/expression.py | 48 +++++++++++++++++----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 61b056f..9ea6efb 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -207,6 +207,15 @@ def _operand(f, s: list, least: int):
     return text if s[0].binds >= least else f'({text})'
 
 
+def _nodes(x):
+    """A flat list of the values and operations in x, which may be an Expr, one of them, or a list of any of these"""
+    if isinstance(x, Expr):
+        x = x.expr
+    if isinstance(x, list):
+        return [node for item in x for node in _nodes(item)]
+    return [x]
+
+
 class Op:
     def __init__(self):
         self.data_type = DataType.undefined
@@ -281,16 +290,19 @@ class Op:
         return False
 
     def __add__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             return self
         return BinaryOp('+', self, other)
 
     def __sub__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             return self
         return BinaryOp('-', self, other)
 
     def __mul__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             return other
         if other.is_value(1):
@@ -300,6 +312,7 @@ class Op:
         return BinaryOp('*', self, other)
 
     def __truediv__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             raise RuntimeError('Division by zero')
         if other.is_value(1):
@@ -309,6 +322,7 @@ class Op:
         return BinaryOp('/', self, other)
 
     def __floordiv__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             raise RuntimeError('Division by zero')
         if other.is_value(1):
@@ -317,6 +331,14 @@ class Op:
             return -self
         return BinaryOp('//', self, other)
 
+    def __pow__(self, power):
+        power = power if isinstance(power, (Value, Op)) else Value.best(power)
+        if power.is_value(1):
+            return self
+        if power.is_zero:
+            return Value(1, data_type=DataType.int)
+        return BinaryOp('__pow__', self, power)
+
     def __neg__(self):
         return UnaryOp('-', self)
 
@@ -334,8 +356,7 @@ class TrinaryOp(Op):
     def __init__(self, op, first, second, third):
         super().__init__()
         self.op = op
-        first, second, third = [x.expr if isinstance(x, Expr) else x for x in (first, second, third)]
-        first, second, third = [[x] if not isinstance(x, list) else x for x in (first, second, third)]
+        first, second, third = [_nodes(x) for x in (first, second, third)]
         self.first = first
         self.second = second
         self.third = third
@@ -419,14 +440,8 @@ class TrinaryOp(Op):
 class BinaryOp(Op):
     def __init__(self, op, left, right):
         super().__init__()
-        if isinstance(left, Expr):
-            left = left.expr
-        if isinstance(right, Expr):
-            right = right.expr
-        if not isinstance(left, list):
-            left = [left]
-        if not isinstance(right, list):
-            right = [right]
+        left = _nodes(left)
+        right = _nodes(right)
         self.op = op
         self.left = left
         self.right = right
@@ -575,10 +590,7 @@ class BinaryOp(Op):
 class UnaryOp(Op):
     def __init__(self, op, value):
         super().__init__()
-        if isinstance(value, Expr):
-            value = value.expr
-        if not isinstance(value, list):
-            value = [value]
+        value = _nodes(value)
         self.op = op
         self.value = value
         data_types = list(dict.fromkeys(x.data_type for x in value))
@@ -1004,10 +1016,12 @@ class Value:
     def __pow__(self, power):
         if not isinstance(power, (Value, Op)):
             power = Value.best(power)
-        if self.is_zero or self.is_value(1):
-            return self
         if power.is_zero:
             return Value(1, data_type=self.data_type)
+        if self.is_value(1) or power.is_value(1):
+            return self
+        if self.is_zero and not power.is_id and not power.is_op and power.value > 0:
+            return self
         return BinaryOp('__pow__', self, power)
 
     @property
@@ -1066,7 +1080,7 @@ ExprNode = Union[ExprNodeSingular, list[ExprNodeSingular]]
 
 class Expr:
     def __init__(self, expr: ExprNode):
-        self.expr = expr if isinstance(expr, list) else [expr]
+        self.expr = _nodes(expr)
 
     def __str__(self):
         return ','.join(str(x) for x in self.expr)
-- 
2.43.0


From 8773368e2724528ab3ce2fa1cca8ecd7f7d72c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:33 +0000
Subject: [PATCH 023/104] fix: equal expressions had different hashes, copies
 of expressions shared their values, a value assigned to lost its kind

---
 src/mccode_antlr/common/expression.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 9ea6efb..d5831e3 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -221,9 +221,6 @@ class Op:
         self.data_type = DataType.undefined
         self.style = 'C'  # there should be a better way to do this
 
-    def __hash__(self):
-        return hash(str(self))
-
     @property
     def binds(self):
         return _PRIMARY
@@ -393,6 +390,9 @@ class TrinaryOp(Op):
             return False
         return self.op == other.op and self.first == other.first and self.second == other.second and self.third == other.third
 
+    def __hash__(self):
+        return hash((self.op, tuple(self.first), tuple(self.second), tuple(self.third)))
+
     @property
     def is_scalar(self):
         return len(self.first) == 1 and len(self.second) == 1 and len(self.third) == 1\
@@ -425,7 +425,7 @@ class TrinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.first, self.second, self.third))
 
     def copy(self):
-        return TrinaryOp(self.op, self.first, self.second, self.third)
+        return TrinaryOp(self.op, *[[x.copy() for x in y] for y in (self.first, self.second, self.third)])
 
     def __contains__(self, value):
         # first, second, and third are lists, so we need to check each element to avoid using __eq__
@@ -519,6 +519,10 @@ class BinaryOp(Op):
                 return True
         return self.left == other.left and self.right == other.right
 
+    def __hash__(self):
+        sides = tuple(self.left), tuple(self.right)
+        return hash((self.op, frozenset(sides) if self.op in ('*', '+') else sides))
+
     def __round__(self, n=None):
         return self if self.data_type.is_int else UnaryOp('round', self)
 
@@ -575,7 +579,7 @@ class BinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.left, self.right))
 
     def copy(self):
-        return BinaryOp(self.op, self.left.copy(), self.right.copy())
+        return BinaryOp(self.op, [x.copy() for x in self.left], [x.copy() for x in self.right])
 
     def __contains__(self, value):
         # left and right are lists, so we need to check each element to avoid using __eq__
@@ -638,6 +642,9 @@ class UnaryOp(Op):
             return False
         return self.op == other.op and self.value == other.value
 
+    def __hash__(self):
+        return hash((self.op, tuple(self.value)))
+
     def __round__(self, n=None):
         return self if self.data_type.is_int else UnaryOp('round', self)
 
@@ -674,7 +681,7 @@ class UnaryOp(Op):
         return any(x.depends_on(name) for x in self.value)
 
     def copy(self):
-        return UnaryOp(self.op, self.value.copy())
+        return UnaryOp(self.op, [x.copy() for x in self.value])
 
     def __contains__(self, value):
         # value is a list
@@ -737,7 +744,7 @@ class Value:
     @value.setter
     def value(self, value):
         logger.debug(f'Updating Value from {self._value} to {value}')
-        self._object = self.data_type != DataType.str and isinstance(value, str)
+        self._object = ObjectType.identifier if self.data_type != DataType.str and isinstance(value, str) else ObjectType.value
         self._value = value
 
     @data_type.setter
@@ -781,7 +788,8 @@ class Value:
         return f'{self.shape_type} {self.data_type} {self._str_repr_()}'
 
     def __hash__(self):
-        return hash(str(self))
+        # equal values have equal hashes, whatever their type
+        return hash(tuple(self.value) if isinstance(self.value, list) else self.value)
 
     def compatible(self, other, id_ok=False):
         if isinstance(other, Expr) and other.is_singular:
@@ -1093,7 +1101,7 @@ class Expr:
         return ','.join(repr(x) for x in self.expr)
 
     def __hash__(self):
-        return hash(str(self))
+        return hash(self.expr[0] if len(self.expr) == 1 else tuple(self.expr))
 
     def __contains__(self, value):
         return any(value in x for x in self.expr)
-- 
2.43.0


From 3207294f660ac2f3bef12a824b6967334371d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 024/104] fix: literals and calls in expressions: other bases,
 suffixes, escaped quotes, no arguments, 0/0 and flooring

---
 src/mccode_antlr/common/expression.py | 12 ++++--------
 src/mccode_antlr/common/visitor.py    | 12 ++++++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index d5831e3..1505ecf 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -951,14 +951,14 @@ class Value:
     def __truediv__(self, other):
         other = other if isinstance(other, (Value, Op)) else Value.best(other)
         pdt = self.data_type / other.data_type
+        if other.is_zero:
+            raise RuntimeError('Division by zero!')
         if self.is_zero:
             return Value(0, DataType.int if pdt.is_str else pdt)
         if other.is_value(1):
             return self.as_type(pdt)
         if other.is_value(-1):
             return (-self).as_type(pdt)
-        if other.is_zero:
-            raise RuntimeError('Division by zero!')
         if other.is_op or self.is_id or other.is_id:
             return BinaryOp('/', self, other)
         return BinaryOp('/', self, other) if pdt.is_str else Value(self.value / other.value, pdt)
@@ -966,14 +966,10 @@ class Value:
     def __floordiv__(self, other):
         other = other if isinstance(other, (Value, Op)) else Value.best(other)
         pdt = self.data_type // other.data_type
-        if self.is_zero:
-            return Value(0, DataType.int)
-        if other.is_value(1):
-            return Value.int(round(self.value))
-        if other.is_value(-1):
-            return -Value.int(round(self.value))
         if other.is_zero:
             raise RuntimeError('Division by zero!')
+        if self.is_zero:
+            return Value(0, DataType.int)
         if other.is_op or self.is_id or other.is_id:
             return BinaryOp('//', self, other)
         return BinaryOp('//', self, other) if pdt.is_str else Value.int(self.value // other.value)
diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index d47fab1..8d60574 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -114,7 +114,7 @@ def visitExpressionGrouping(obj, ctx):
     return Expr(UnaryOp('__group__', obj.visit(ctx.expr())))
 
 def visitExpressionFloat(obj, ctx):
-    return Expr.float(str(ctx.FloatingLiteral()))
+    return Expr.float(str(ctx.FloatingLiteral()).replace("'", '').rstrip('fFlL'))
 
 def visitExpressionPointerAccess(obj, ctx):
     pointer = Expr(Value(str(ctx.Identifier()), object_type=ObjectType.identifier))
@@ -137,7 +137,10 @@ def visitExpressionIdentifier(obj, ctx):
     return Expr(Value(name, data_type=dat, object_type=obj))
 
 def visitExpressionInteger(obj, ctx):
-    return Expr.int(str(ctx.IntegerLiteral()))
+    literal = str(ctx.IntegerLiteral()).replace("'", '').rstrip('uUlL').lower()
+    # the base of an integer is indicated as in C
+    base = 16 if literal.startswith('0x') else 2 if literal.startswith('0b') else 8 if literal.startswith('0') else 10
+    return Expr.int(int(literal, base))
 
 def visitExpressionZero(obj, ctx):
     return Expr.int(0)
@@ -145,7 +148,8 @@ def visitExpressionZero(obj, ctx):
 def visitExpressionFunctionCall(obj, ctx):
     function = Value(str(ctx.Identifier()), object_type=ObjectType.function)
     # `ctx.args` isn't exposed by speedy-antlr-tool, but the function call is
-    args = [obj.visit(arg).expr[0] for arg in ctx.expr()]  # each is a Value, UnaryOp, or BinaryOp?
+    # each is a Value, UnaryOp, or BinaryOp? A call without arguments is parsed with one, empty, expression
+    args = [obj.visit(arg).expr[0] for arg in ctx.expr() if not _is_empty(arg)]
     return Expr(BinaryOp('__call__', function, args))
 
 def visitInitializerlist(obj, ctx):
@@ -154,7 +158,7 @@ def visitInitializerlist(obj, ctx):
     return Expr(Value(values, object_type=ObjectType.initializer_list, shape_type=ShapeType.vector))
 
 def visitExpressionString(obj, ctx):
-    strings = ''.join(str(sl).strip('"') for sl in ctx.StringLiteral())
+    strings = ''.join(str(sl)[1:-1] if str(sl).startswith('"') else str(sl) for sl in ctx.StringLiteral())
     return Expr.str(f'"{strings}"')
 
 
-- 
2.43.0


From 5736d88dcc5ca41ddb9c0d1cd04361fd57f6572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 025/104] fix: lists given to vector parameters were written as
 Python lists, and elements which are not constant were not kept

---
 src/mccode_antlr/common/expression.py        | 39 ++++++++++++++++++--
 src/mccode_antlr/common/visitor.py           |  3 +-
 src/mccode_antlr/instr/instance.py           |  5 ++-
 src/mccode_antlr/translators/c_initialise.py |  2 +-
 4 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 1505ecf..da07e86 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -760,6 +760,8 @@ class Value:
         return self.is_vector and self.has_value and not isinstance(self.value, str)
 
     def special_str(self, prefix=None):
+        if self.is_list:
+            return self._list_str(lambda x: format(x, 'p' if prefix is None else f'prefix:{prefix}'))
         if prefix is None:
             prefix = "_instrument_var._parameters."
         return f'{prefix}{self.value}' if self.is_parameter else f'{self.value}'
@@ -770,8 +772,19 @@ class Value:
         negative = isinstance(self.value, (int, float)) and self.value < 0
         return _BINDS['__pow__'] if negative and not self.is_id else _PRIMARY
 
+    @property
+    def is_list(self):
+        """An initializer list, the elements of which are numbers or, if not constant, values or operations"""
+        return self.is_vector and isinstance(self.value, (list, tuple))
+
+    def _nodes(self):
+        return [x for x in self.value if isinstance(x, (Value, Op))] if self.is_list else []
+
+    def _list_str(self, f):
+        return '{' + ','.join(f(x) if isinstance(x, (Value, Op)) else str(x) for x in self.value) + '}'
+
     def _str_repr_(self):
-        return str(self.value)
+        return self._list_str(str) if self.is_list else str(self.value)
 
     def __str__(self):
         return self._str_repr_()
@@ -1055,19 +1068,26 @@ class Value:
             if isinstance(result, Expr) and result.is_singular:
                 return result.expr[0]
             return result
+        if self._nodes():
+            values = [x.evaluate(known) if isinstance(x, (Value, Op)) else x for x in self.value]
+            values = [x.value if isinstance(x, Value) and x.is_constant else x for n in values for x in _nodes(n)]
+            return Value(values, self.data_type, self.object_type, self.shape_type)
         return self
 
     def depends_on(self, name: str):
-        return not self.is_constant and self.value == name
+        return not self.is_constant and self.value == name or any(x.depends_on(name) for x in self._nodes())
 
     def copy(self):
-        return Value(self.value, self.data_type, self.object_type, self.shape_type)
+        value = [x.copy() if isinstance(x, (Value, Op)) else x for x in self.value] if self.is_list else self.value
+        return Value(value, self.data_type, self.object_type, self.shape_type)
 
     def __contains__(self, value):
         if self.is_id and isinstance(value, (str, Value)):
             return self.value == value
+        if self.is_list:
+            return any(value in x if isinstance(x, (Value, Op)) else value == x for x in self.value)
         if self.is_vector:
-            return value in self.value
+            return self.has_value and value in self.value
         if self.is_str and isinstance(value, str) and (value[0] != '"' or value[-1] != '"'):
             # string Values are always wrapped in double quotes
             return self.value.strip('"') == value.strip('"')
@@ -1076,6 +1096,8 @@ class Value:
     def verify_parameters(self, instrument_parameter_names: list[str]):
         if self.is_id and self.value in instrument_parameter_names:
             self._object = ObjectType.parameter
+        for x in self._nodes():
+            x.verify_parameters(instrument_parameter_names)
 
 
 ExprNodeSingular = Union[Value, UnaryOp, BinaryOp, TrinaryOp]
@@ -1110,6 +1132,15 @@ class Expr:
         visitor = InstrVisitor(None, None)
         return visitor.getExpr(McInstr_parse(InputStream(s), 'expr'))
 
+    @staticmethod
+    def parse_list(s: str):
+        """Parse an initializer list, e.g., '{1, 2, name}'"""
+        from antlr4 import InputStream
+        from ..grammar import McInstr_parse
+        from ..instr import InstrVisitor
+        visitor = InstrVisitor(None, None)
+        return Expr(visitor.visit(McInstr_parse(InputStream(s), 'initializerlist')))
+
     @classmethod
     def float(cls, value):
         if isinstance(value, cls):
diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 8d60574..18544a3 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -154,7 +154,8 @@ def visitExpressionFunctionCall(obj, ctx):
 
 def visitInitializerlist(obj, ctx):
     # `ctx.values` is not exposed by speedy-antlr-tool
-    values = [obj.visit(x).expr[0].value for x in ctx.expr()]
+    values = [obj.visit(x).expr[0] for x in ctx.expr()]
+    values = [x.value if isinstance(x, Value) and x.is_constant else x for x in values]
     return Expr(Value(values, object_type=ObjectType.initializer_list, shape_type=ShapeType.vector))
 
 def visitExpressionString(obj, ctx):
diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 1be53b5..7459537 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -139,7 +139,10 @@ class Instance:
             logger.debug(f'{p=}, {name=}, {value=}')
             raise RuntimeError(f"Provided value for parameter {name} is not compatible with {self.type.name}")
 
-        if p.value.is_vector and isinstance(value, str):
+        if p.value.is_vector and isinstance(value, str) and value.strip().startswith('{'):
+            value = Expr.parse_list(value)
+            value.data_type = p.value.data_type
+        elif p.value.is_vector and isinstance(value, str):
             # FIXME can this be more general? Do we _need_ to treat vectors differently?
             value = Expr(Value(value, data_type=p.value.data_type, shape_type=p.value.shape_type))
         elif isinstance(value, str) and value.strip() == 'NULL':
diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 5f527d4..bda27d3 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -136,7 +136,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
                 c_type = par.value.mccode_c_type.translate(str.maketrans('', '', ' *'))  # strip the trailing ' *'
                 pl.append(f'  {fullname} = calloc(sizeof({c_type}), {len(p.value.value)});')
                 for i, v in enumerate(p.value.value):
-                    pl.append(f'  {fullname}[{i}] = {v};')
+                    pl.append(f"  {fullname}[{i}] = {v:p};" if hasattr(v, 'is_op') else f'  {fullname}[{i}] = {v};')
             elif p.value.is_id:
                 pl.append(f'  {fullname} = {value};')
             else:
-- 
2.43.0


From dc4d79c188fa6594846263ecb9d2c1e00ce41711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 026/104] fix: an explicit ABSOLUTE rotation was lost by the
 Assembler, refused calls left parts of what they state behind, a float
 default made an int parameter

---
 src/mccode_antlr/assembler/assembler.py | 34 ++++++++++++++++++++-----
 src/mccode_antlr/instr/instance.py      | 22 ++++++++++------
 2 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index af2b993..cad87dd 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -47,7 +47,8 @@ class Assembler:
 
     def _handle_rotate(self, a=None, at_ref=None) -> tuple[Angles, Union[Instance, None]]:
         rot_tuple, ref = self._handle_at_rotate(a)
-        return Angles(*rot_tuple), ref or at_ref
+        # only an omitted rotation is relative to the same instance as the position
+        return Angles(*rot_tuple), at_ref if a is None else ref
 
     def component(self, name: str, type_name: str, at=None, rotate=None, parameters=None, **kwargs):
         """Add a component to the underlying Instr.
@@ -74,20 +75,29 @@ class Assembler:
         ----
         See `Assembler._handle_at` and `Assembler._handle_rotate` for details on the at and rotate arguments.
         """
+        known, flags = dict(self.reader.components), list(self.reader.c_flags)
+        try:
+            return self._component(name, type_name, at, rotate, parameters, **kwargs)
+        except Exception:
+            # nothing of a refused component remains, including the flags needed by its type
+            self.reader.components, self.reader.c_flags = known, flags
+            raise
+
+    def _component(self, name: str, type_name: str, at=None, rotate=None, parameters=None, **kwargs):
         comp_type = self.reader.get_component(type_name)
         if type_name != comp_type.name:
             raise RuntimeError(f"Component resolution failed for {type_name}, found {comp_type.name} instead")
-        if self.reader.c_flags:
-            unique_flags = list(self.instrument.flags)
-            unique_flags.extend(self.reader.c_flags)
-            self.instrument.flags = tuple(dict.fromkeys(unique_flags))
         at, ref = self._handle_at(at)
         instance = Instance(name, comp_type,
                             at_relative=(at, ref), rotate_relative=self._handle_rotate(rotate, ref),
                             **kwargs)
-        self.instrument.add_component(instance)
         if isinstance(parameters, dict):
             instance.set_parameters(**parameters)
+        self.instrument.add_component(instance)
+        if self.reader.c_flags:
+            unique_flags = list(self.instrument.flags)
+            unique_flags.extend(self.reader.c_flags)
+            self.instrument.flags = tuple(dict.fromkeys(unique_flags))
         return instance
 
     def parameter(self, par, ignore_repeated=False):
@@ -105,6 +115,15 @@ class Assembler:
         self.instrument.add_parameter(par, ignore_repeated=ignore_repeated)
 
     def parameters(self, *pars, **pairs):
+        before = self.instrument.parameters
+        try:
+            self._parameters(*pars, **pairs)
+        except Exception:
+            # all of them are added or, if any is refused, none
+            self.instrument.parameters = before
+            raise
+
+    def _parameters(self, *pars, **pairs):
         for par in list(pars):
             if isinstance(par, str):
                 par = InstrumentParameter.parse(par)
@@ -120,6 +139,9 @@ class Assembler:
                     value, unit = value
                 else:
                     unit = ''
+                if isinstance(value, float):
+                    # the parameter is not an integer only because its default value is
+                    value = Expr.float(value)
                 value = InstrumentParameter(name, unit, value if isinstance(value, Expr) else Expr.best(value))
             self.instrument.add_parameter(value)
 
diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 7459537..a93377a 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -122,6 +122,12 @@ class Instance:
     def set_parameter(self, name: str, value, overwrite=False, allow_repeated=True):
         if not parameter_name_present(self.type.define, name) and not parameter_name_present(self.type.setting, name):
             raise RuntimeError(f"Unknown parameter {name} for component type {self.type.name}")
+        p = self.type.get_parameter(name)
+
+        if not p.compatible_value(value):
+            logger.debug(f'{p=}, {name=}, {value=}')
+            raise RuntimeError(f"Provided value for parameter {name} is not compatible with {self.type.name}")
+
         if parameter_name_present(self.parameters, name):
             if overwrite:
                 self.parameters = tuple(x for x in self.parameters if name != x.name)
@@ -133,12 +139,6 @@ class Instance:
                     logger.info(f'  newly-encountered value {value} dropped')
             else:
                 raise RuntimeError(f"Multiple definitions of {name} in component instance {self.name}")
-        p = self.type.get_parameter(name)
-
-        if not p.compatible_value(value):
-            logger.debug(f'{p=}, {name=}, {value=}')
-            raise RuntimeError(f"Provided value for parameter {name} is not compatible with {self.type.name}")
-
         if p.value.is_vector and isinstance(value, str) and value.strip().startswith('{'):
             value = Expr.parse_list(value)
             value.data_type = p.value.data_type
@@ -183,8 +183,14 @@ class Instance:
         return parameter_name_present(self.parameters, name)
 
     def set_parameters(self, **kwargs):
-        for name, value in kwargs.items():
-            self.set_parameter(name, value)
+        before = self.parameters
+        try:
+            for name, value in kwargs.items():
+                self.set_parameter(name, value)
+        except Exception:
+            # all of them are set or, if any is refused, none
+            self.parameters = before
+            raise
 
     def REMOVABLE(self):
         self.removable = True
-- 
2.43.0


From f7dc965ace9ee70843f25dbf452bc31416841420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 027/104] fix: a repeated parameter of an instance was said to
 be dropped, and kept

---
 src/mccode_antlr/instr/instance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index a93377a..f74fa75 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -137,6 +137,7 @@ class Instance:
                 if par.value != value:
                     logger.info(f'  first-encountered value {par.value} retained')
                     logger.info(f'  newly-encountered value {value} dropped')
+                return
             else:
                 raise RuntimeError(f"Multiple definitions of {name} in component instance {self.name}")
         if p.value.is_vector and isinstance(value, str) and value.strip().startswith('{'):
-- 
2.43.0


From 721cb9ba45216def2a95cb6669f64f5be4663ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:20 +0000
Subject: [PATCH 028/104] fix: the groups of an assembled instrument were never
 determined, it could not be translated

---
 src/mccode_antlr/assembler/assembler.py | 1 +
 src/mccode_antlr/instr/instr.py         | 1 +
 src/mccode_antlr/translators/target.py  | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index cad87dd..ab9dbae 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -94,6 +94,7 @@ class Assembler:
         if isinstance(parameters, dict):
             instance.set_parameters(**parameters)
         self.instrument.add_component(instance)
+        self.instrument.determine_groups()
         if self.reader.c_flags:
             unique_flags = list(self.instrument.flags)
             unique_flags.extend(self.reader.c_flags)
diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index da95529..a68cc01 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -201,6 +201,7 @@ class Instr:
         self.metadata += (m,)
 
     def determine_groups(self):
+        self.groups = {}
         for id, inst in enumerate(self.components):
             if inst.group:
                 if inst.group not in self.groups:
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 0bcd264..9dfe1bc 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -143,6 +143,8 @@ class TargetVisitor:
                 return self.output
             self.output.close()
         self.output = StringIO()
+        # the components may have changed since the instrument was read
+        self.source.determine_groups()
         self.info('visit header')
         self.visit_header()
         self.info('visit declare')
-- 
2.43.0


From bed3d365286a4d30aa08d07471a45736f7f4f1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:16 +0000
Subject: [PATCH 029/104] fix: metadata added by the Assembler was attributed
 to None instead of the instrument

---
 src/mccode_antlr/assembler/assembler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index ab9dbae..9b3faf8 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -186,6 +186,8 @@ class Assembler:
 
     def metadata(self, name: str, mimetype: str, value: str, source=None):
         from mccode_antlr.common.metadata import MetaData
+        if source is None:
+            source = self.name
         self.instrument.add_metadata(MetaData.from_instrument_tokens(source, mimetype, name, value))
 
 
-- 
2.43.0


From f217f339e26fe4d561e64838fd64308802310b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 030/104] fix: coordinates given to the Assembler as text were
 taken for one name instead of an expression

---
 src/mccode_antlr/instr/instr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index a68cc01..28c5e5b 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -498,7 +498,7 @@ class Instr:
 
     def check_expr(self, expr: int | float | str | Expr | Value):
         if not isinstance(expr, Expr):
-            expr = Expr.best(expr)
+            expr = Expr.parse(expr) if isinstance(expr, str) else Expr.best(expr)
         # check whether the expression contains any identifiers which are actually InstrumentParameters
         expr.verify_parameters([x.name for x in self.parameters])
         # We then verify that no as-of-yet undefined identifiers exist, but can't in case they're defined in
-- 
2.43.0


From 207a9b131d575b3683321af7f884317c230e278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:53 +0000
Subject: [PATCH 031/104] fix: instrument parameters were not recognised in
 WHEN, SPLIT, JUMP and placements stated by the Assembler, or before the
 parameter

---
 src/mccode_antlr/instr/instance.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index f74fa75..17f83c7 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -167,11 +167,16 @@ class Instance:
         self.parameters += (ComponentParameter(p.name, value), )
 
     def verify_parameters(self, instrument_parameters: tuple[InstrumentParameter, ...]):
-        """Check for instance parameters which are identifiers that match instrument parameter names,
+        """Check for identifiers that match instrument parameter names, in any expression of this instance,
         and flag them as parameter objects"""
         instrument_parameter_names = [x.name for x in instrument_parameters]
-        for par in self.parameters:
-            par.value.verify_parameters(instrument_parameter_names)
+        expressions = [par.value for par in self.parameters]
+        expressions.extend(x for x in (self.split, self.when) if x is not None)
+        expressions.extend(jump.condition for jump in self.jump)
+        for vector, _ in (self.at_relative, self.rotate_relative):
+            expressions.extend(x for x in vector if isinstance(x, Expr))
+        for expr in expressions:
+            expr.verify_parameters(instrument_parameter_names)
 
     def get_parameter(self, name: str):
         for par in self.parameters:
-- 
2.43.0


From d40bd789d0cf48d3223e6b87ed42eae1ecde31f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:07 +0000
Subject: [PATCH 032/104] fix: metadata sources with the same type and name are
 equal

---
 src/mccode_antlr/common/metadata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mccode_antlr/common/metadata.py b/src/mccode_antlr/common/metadata.py
index e91ee5d..9ea2f92 100644
--- a/src/mccode_antlr/common/metadata.py
+++ b/src/mccode_antlr/common/metadata.py
@@ -12,6 +12,14 @@ class DataSource:
         self._type = source_type
         self._name = name
 
+    def __eq__(self, other):
+        if not isinstance(other, DataSource):
+            return NotImplemented
+        return self._type == other._type and self._name == other._name
+
+    def __hash__(self):
+        return hash((self._type, self._name))
+
     @property
     def name(self):
         return self._name
-- 
2.43.0


From 50850529a5756e235a2ca45f18ba2a168d1815f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:07 +0000
Subject: [PATCH 033/104] fix: HDF5 files keep in-memory registries and
 registry priorities

---
 src/mccode_antlr/io/hdf5.py         | 30 +++++++++++++++++++++++++----
 src/mccode_antlr/reader/registry.py |  5 +++++
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 808f0fc..bcb172c 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -187,7 +187,8 @@ def RemoteRegistryIO(actual_type):
         @staticmethod
         def load(group, **kwargs) -> RemoteRegistry:
             _check_header(group, actual_type)
-            values = _standard_read(actual_type, group, actual_type.file_keys(), (), (), **kwargs)
+            values = _standard_read(actual_type, group, actual_type.file_keys() + ('priority',), (), (), **kwargs)
+            values = {k: v for k, v in values.items() if k != 'priority' or v is not None}
             try:
                 return actual_type(**values)
             except RuntimeError:
@@ -196,7 +197,7 @@ def RemoteRegistryIO(actual_type):
 
         @staticmethod
         def save(group, data, **kwargs):
-            _standard_save(actual_type, group, data, actual_type.file_keys(), (), **kwargs)
+            _standard_save(actual_type, group, data, actual_type.file_keys() + ('priority',), (), **kwargs)
 
     return _RemoteRegistryIO
 
@@ -206,7 +207,8 @@ class LocalRegistryIO:
 
     @staticmethod
     def load(group, **kwargs) -> Registry:
-        values = _standard_read(LocalRegistryIO.LocalRegistry, group, ('name', 'root'), (), (), **kwargs)
+        values = _standard_read(LocalRegistryIO.LocalRegistry, group, ('name', 'root', 'priority'), (), (), **kwargs)
+        values = {k: v for k, v in values.items() if k != 'priority' or v is not None}
         try:
             return LocalRegistryIO.LocalRegistry(**values)
         except RuntimeError:
@@ -215,11 +217,30 @@ class LocalRegistryIO:
 
     @staticmethod
     def save(group, data, **kwargs):
-        _standard_save(LocalRegistryIO.LocalRegistry, group, data, ('name',), (), **kwargs)
+        _standard_save(LocalRegistryIO.LocalRegistry, group, data, ('name', 'priority'), (), **kwargs)
         if data.root is not None:
             group.attrs['root'] = data.root.as_posix()
 
 
+class InMemoryRegistryIO:
+    from mccode_antlr.reader.registry import InMemoryRegistry
+
+    @staticmethod
+    def load(group, **kwargs) -> InMemoryRegistry:
+        values = _standard_read(InMemoryRegistryIO.InMemoryRegistry, group, ('name', 'priority'), (), (), **kwargs)
+        registry = InMemoryRegistryIO.InMemoryRegistry(**values)
+        for name, contents in zip(HDF5IO.load(group['file_names']), HDF5IO.load(group['file_contents'])):
+            registry.add(name, contents)
+        return registry
+
+    @staticmethod
+    def save(group, data, **kwargs):
+        _standard_save(InMemoryRegistryIO.InMemoryRegistry, group, data, ('name', 'priority'), (), **kwargs)
+        # the file names could contain a path, which would be understood as a group inside a group
+        HDF5IO.save(group=group.create_group('file_names'), data=list(data.components.keys()))
+        HDF5IO.save(group=group.create_group('file_contents'), data=list(data.components.values()))
+
+
 def _seitz_part_io(actual_type):
     class _RotationPartIO:
         @staticmethod
@@ -412,6 +433,7 @@ class HDF5IO:
         'ModuleRemoteRegistry': RemoteRegistryIO(ModuleRemoteRegistry),
         'GitHubRegistry': RemoteRegistryIO(GitHubRegistry),
         'LocalRegistry': LocalRegistryIO,
+        'InMemoryRegistry': InMemoryRegistryIO,
         'ComponentParameter': _dataclass_io(ComponentParameter, attrs=('name',), required=('value',)),
         'Comp': _dataclass_io(Comp, attrs=('name', 'category', 'dependency', 'acc'),
                               optional=('define', 'setting', 'output', 'metadata', 'share', 'user',
diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 8ff0fc5..6678ff2 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -392,6 +392,11 @@ class InMemoryRegistry(Registry):
             return self.components[full_name]
         raise KeyError(f'InMemoryRegistry does not know of {name if ext is None else name + ext}')
 
+    def __eq__(self, other):
+        if not isinstance(other, InMemoryRegistry):
+            return False
+        return other.name == self.name and other.components == self.components
+
 
 def ordered_registries(registries: list[Registry]):
     """Sort the registries by their priority"""
-- 
2.43.0


From 68c1d9ea6c04d2feb6d7e7ee0e2bc0a2c7f40ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 034/104] fix: HDF5 files keep the stated type and shape of an
 expression

---
 src/mccode_antlr/io/hdf5.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index bcb172c..9f05134 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -284,7 +284,7 @@ def _op_io(typename, fields: list[str]):
     class _OpIO:
         @staticmethod
         def load(group, **kwargs) -> typename:
-            from mccode_antlr.common.expression import DataType
+            from mccode_antlr.common.expression import DataType, ShapeType
             _check_header(group, typename)
             attrs = {name: group.attrs.get(name) for name in ('op', 'style', 'data_type_name')}
             values = {name: HDF5IO.load(group[name], **kwargs) for name in fields}
@@ -292,9 +292,10 @@ def _op_io(typename, fields: list[str]):
                 raise ValueError(f"Could not load values for {typename}")
             op = typename(attrs['op'], **values)
             op.style = attrs['style']
-            if op.data_type != DataType.from_name(attrs['data_type_name']):
-                raise ValueError(
-                    f"Loaded {typename} with data type {op.data_type}, but expected {attrs['data_type_name']}")
+            # the type can have been stated instead of following from the operands
+            op.data_type = DataType.from_name(attrs['data_type_name'])
+            if 'shape_type_name' in group.attrs:
+                op.shape_type = ShapeType.from_name(group.attrs['shape_type_name'])
             return op
 
         @staticmethod
@@ -304,6 +305,8 @@ def _op_io(typename, fields: list[str]):
                 if getattr(data, name) is not None:
                     group.attrs[name] = getattr(data, name)
             group.attrs['data_type_name'] = data.data_type.name
+            if hasattr(data, 'shape_type'):
+                group.attrs['shape_type_name'] = data.shape_type.name
             for name in fields:
                 if getattr(data, name) is not None:
                     HDF5IO.save(group=group.create_group(name), data=getattr(data, name), **kwargs)
-- 
2.43.0


From f56933d255c98ce68a0d2d13fae3de2e2b3c47a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 035/104] fix: HDF5 files keep the mode of an instance

---
 src/mccode_antlr/io/hdf5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 9f05134..d846472 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -107,6 +107,9 @@ class InstanceIO:
         if ref is not None and ref not in instances:
             raise ValueError(f"Unknown instance reference {ref}")
         values['rotate_relative'] = (ang, instances.get(ref) if ref is not None else None)
+        if 'mode' in group.attrs:
+            from mccode_antlr.common import Mode
+            values['mode'] = Mode[group.attrs['mode']]
         return InstanceIO.Instance(**values)
 
     @staticmethod
@@ -116,6 +119,7 @@ class InstanceIO:
         # Maybe we can get away with only keeping their names, since those are unique in the instrument
         # component _type_ name:
         group.attrs['type'] = data.type.name
+        group.attrs['mode'] = data.mode.name
         # at_relative tuple:
         HDF5IO.save(group=group.create_group('at_vector'), data=data.at_relative[0])
         if data.at_relative[1] is not None:
-- 
2.43.0


From 61d65f3ecab0da58c6163223f234f445312935f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 036/104] fix: HDF5 files keep whether a rotation is in degrees

---
 src/mccode_antlr/io/hdf5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index d846472..cd1f920 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -253,11 +253,15 @@ def _seitz_part_io(actual_type):
             v = HDF5IO.load(group['v'], **kwargs)
             if v is None:
                 raise ValueError(f"Could not load v for {actual_type}")
+            if 'degrees' in group.attrs:
+                return actual_type(v=v, degrees=bool(group.attrs['degrees']))
             return actual_type(v=v)
 
         @staticmethod
         def save(group, data, **kwargs):
             _write_header(group, actual_type)
+            if hasattr(data, 'degrees'):
+                group.attrs['degrees'] = data.degrees
             if data.v is not None:
                 HDF5IO.save(group=group.create_group('v'), data=data.v, **kwargs)
 
-- 
2.43.0


From 856190e3719feb5a4e8e0c5affb08061c8b1ef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 037/104] fix: HDF5 files keep the order of a dictionary

---
 src/mccode_antlr/io/hdf5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index cd1f920..c1c21b5 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -397,11 +397,15 @@ class DictIO:
     @staticmethod
     def load(group, **kwargs) -> dict:
         _check_header(group, dict)
-        return {k: HDF5IO.load(group=group[k], **kwargs) for k in group}
+        # a group lists its members alphabetically
+        names = group.attrs['keys'] if 'keys' in group.attrs else group
+        return {k: HDF5IO.load(group=group[k], **kwargs) for k in names}
 
     @staticmethod
     def save(group, data: dict, **kwargs):
         _write_header(group, dict)
+        if len(data):
+            group.attrs['keys'] = list(data)
         for k, v in data.items():
             HDF5IO.save(group=group.create_group(k), data=v, **kwargs)
 
-- 
2.43.0


From 3a112d6bc7885224642b1b492ab5c74ac7715d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:47 +0000
Subject: [PATCH 038/104] fix: copied and split instruments referenced the
 components of the original, with its groups

---
 src/mccode_antlr/instr/instr.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 28c5e5b..9086646 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -323,11 +323,23 @@ class Instr:
         copy.initialize = tuple(x.copy() for x in self.initialize)
         copy.save = tuple(x.copy() for x in self.save)
         copy.final = tuple(x.copy() for x in self.final)
-        copy.groups = {k: v.copy() for k, v in self.groups.items()}
         copy.flags = tuple(x for x in self.flags)
         copy.registries = tuple(x for x in self.registries)
+        copy._use_own_components()
         return copy
 
+    def _use_own_components(self):
+        """Make references and groups use the components of this instrument instead of same-named other ones"""
+        own = {x.name: x for x in self.components}
+        for instance in self.components:
+            vector, reference = instance.at_relative
+            if isinstance(reference, Instance):
+                instance.at_relative = vector, own.get(reference.name, reference)
+            angles, reference = instance.rotate_relative
+            if isinstance(reference, Instance):
+                instance.rotate_relative = angles, own.get(reference.name, reference)
+        self.determine_groups()
+
     def split(self, at, remove_unused_parameters=False):
         """Produces two instruments, both containing the indicated component
 
-- 
2.43.0


From b3b3657cd8648d84db4a61d85f1c96622c29d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:52 +0000
Subject: [PATCH 039/104] fix: the parts of an instrument split with an
 intermediate file referenced the replaced component

---
 src/mccode_antlr/instr/instr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 9086646..609db04 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -405,7 +405,7 @@ class Instr:
             component = reader.get_component(component)
             self.flags += tuple(reader.c_flags)
         self.components += (Instance(name, component, at_relative, rotate_relative, orientation,
-                                     parameters, group, removable),)
+                                     parameters, removable=removable, group=group),)
 
     def mcpl_split(self,
                    after,
@@ -445,6 +445,7 @@ class Instr:
         # automatically adds the component at the end of the list:
         first.make_instance(fc.name, output_component, fc.at_relative, fc.rotate_relative, fc.orientation,
                             output_parameters)
+        first._use_own_components()
 
         if input_component is None:
             input_component = 'MCPL_input'
@@ -468,6 +469,7 @@ class Instr:
         second.make_instance(sc.name, input_component, sc.at_relative, sc.rotate_relative, parameters=input_parameters)
         # move the newly added component to the front of the list:
         second.components = (second.components[-1],) + second.components[:-1]
+        second._use_own_components()
 
         return first, second
 
-- 
2.43.0


From c145d9f5bf01e3167d0c07cdfa48d7dac94405af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:34 +0000
Subject: [PATCH 040/104] fix: instrument parameters named in a string, comment
 or longer name, or only in USERVARS

---
 src/mccode_antlr/common/block.py   |  5 ++++-
 src/mccode_antlr/instr/instance.py | 10 ++++++----
 src/mccode_antlr/instr/instr.py    |  2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/common/block.py b/src/mccode_antlr/common/block.py
index 61a3dfe..dc223bd 100644
--- a/src/mccode_antlr/common/block.py
+++ b/src/mccode_antlr/common/block.py
@@ -43,7 +43,10 @@ class RawC:
         return RawC(self.filename, self.line, self.source)
 
     def __contains__(self, value):
-        return value in self.source
+        """Does the name occur in the code, as opposed to in a comment, a string or a longer name"""
+        from re import compile, escape, search, DOTALL
+        not_code = compile(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', DOTALL)
+        return search(rf'(?<!\w){escape(value)}(?!\w)', not_code.sub(' ', self.source)) is not None
 
 
 def blocks_to_raw_c(*args):
diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 17f83c7..a82b3e5 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -257,17 +257,19 @@ class Instance:
                         metadata=self.metadata, mode=self.mode)
 
     def parameter_used(self, name: str):
-        if any([name in par.value for par in self.parameters]):
+        # a string equal to the name of the parameter does not use the parameter
+        parameter = Value.id(name)
+        if any([parameter in par.value for par in self.parameters]):
             return True
-        if name in self.at_relative[0] or name in self.rotate_relative[0] or name in self.orientation:
+        if parameter in self.at_relative[0] or parameter in self.rotate_relative[0] or parameter in self.orientation:
             return True
-        if name in (self.split or []) or name in (self.when or []):
+        if parameter in (self.split or []) or parameter in (self.when or []):
             return True
         for block in self.extend:
             if name in block:
                 return True
         for jump in self.jump:
-            if name in jump:
+            if parameter in jump:
                 return True
         return False
 
diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 609db04..a514de2 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -478,7 +478,7 @@ class Instr:
         for instance in self.components:
             if instance.parameter_used(name):
                 return True
-        for section in (self.declare, self.initialize, self.save, self.final):
+        for section in (self.declare, self.user, self.initialize, self.save, self.final):
             for block in section:
                 # A more complex check would see if the use itself leads to a parameter being used, but
                 # that would be language dependent and probably not worth the effort.
-- 
2.43.0


From 87136cd09455adf7bda4bd9b3837b31059b48905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:12 +0000
Subject: [PATCH 041/104] fix: the sine of 180 degrees was -1

---
 src/mccode_antlr/instr/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 1cf52fc..09c4483 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -351,7 +351,7 @@ def sin_value(v: Expr, degrees=True):
     pi = Expr.float(pi) if v.is_constant else Expr.id('PI')
     if (degrees and v.is_value(Expr.float(90))) or (not degrees and v.is_value(pi / Expr.float(2))):
         return Expr.float(1)
-    if (degrees and v.is_value(Expr.float(180))) or (not degrees and v.is_value(-pi / Expr.float(2))):
+    if (degrees and v.is_value(Expr.float(-90))) or (not degrees and v.is_value(-pi / Expr.float(2))):
         return Expr.float(-1)
     return unary_expr(sin_degree if degrees else sin, 'sin', v)
 
-- 
2.43.0


From 5a4ffcc705e4fbd46a0b4692ceaa96c1d2529682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:34 +0000
Subject: [PATCH 042/104] fix: angles of an orientation with a quarter turn
 around y

---
 src/mccode_antlr/instr/orientation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 09c4483..af82cea 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -418,6 +418,10 @@ def _rotation_angles_to_axes_coordinates(rotated: Angles, degrees=True):
 
 def axes_euler_angles(m: Rotation, degrees) -> Angles:
     """Return the angles vector which could have been used to produce this 'axes' rotation matrix"""
+    if all(x.has_value and abs(x.value) < 2e-8 for x in (m.xx, m.yx, m.zy, m.zz)):
+        # a quarter turn around y makes the x and z rotations share one axis, so one of them is enough
+        rys = atan2_value(m.zx, Expr.float(0), degrees=degrees)
+        return Angles(Expr.float(0), rys[0], atan2_value(m.xy, m.yy, degrees=degrees)[0])
     rxs = atan2_value(-m.zy, m.zz, degrees=degrees)
     rys = atan2_value(m.zx, cos_from_sin_value(m.zx), degrees=degrees)
     rzs = atan2_value(-m.yx, m.xx, degrees=degrees)
-- 
2.43.0


From fbaf1531e1e2abf2f9d60db7f99e484e2160de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 043/104] fix: the orientation of a component ROTATED ABSOLUTE
 followed its AT reference

---
 src/mccode_antlr/instr/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index a82b3e5..d856bcd 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -113,7 +113,7 @@ class Instance:
             at = ar[0] if isinstance(ar[0], Vector) else Vector(*ar[0])
             an, ar = (ar[1].name, ar[1].orientation) if ar[1] else ("ABSOLUTE", None)
             rt = rr[0] if isinstance(rr[0], Angles) else Angles(*rr[0])
-            rn, rr = (rr[1].name, rr[1].orientation) if rr[1] else (an, ar)
+            rn, rr = (rr[1].name, rr[1].orientation) if rr[1] else ("ABSOLUTE", None)
             self.orientation = Orient.from_dependent_orientations(ar, at, rr, rt)
         # check if the defining component is marked noacc, in which case this _is_ cpu only
         if not self.type.acc:
-- 
2.43.0


From 792f9b1466d54e8509544104071bc7a0e098f33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 044/104] fix: a metadata name with spaces is escaped in the
 generated metadata table

---
 src/mccode_antlr/translators/c_decls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index 65c713e..71e62ca 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -80,7 +80,8 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
     def metadata_table():
         def one_line(defined_by, name, mimetype, value):
             from ..common.utilities import escape_str_for_c
-            return f' {{"{defined_by}", "{name}", "{mimetype}", "{escape_str_for_c(value)}"}}, '
+            row = ', '.join(f'"{escape_str_for_c(x)}"' for x in (defined_by, name, mimetype, value))
+            return f' {{{row}}}, '
 
         metadata = source.collect_metadata()
         lines = ['struct metadata_table_struct metadata_table[] = {']
-- 
2.43.0


From d6e314725e0c077633d352d397602b24db8ab283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 045/104] fix: text with non-ASCII or control characters is
 escaped so that a C string holds the same text

---
 src/mccode_antlr/common/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/utilities.py b/src/mccode_antlr/common/utilities.py
index 8ebe4fb..b062d1a 100644
--- a/src/mccode_antlr/common/utilities.py
+++ b/src/mccode_antlr/common/utilities.py
@@ -1,4 +1,6 @@
 def escape_str_for_c(s: str):
     if s is None:
         return ''
-    return s.encode('unicode-escape').decode('utf-8').replace('"', r'\"')
+    # octal escapes end after three digits, hexadecimal ones would take in any following digits
+    short = {ord('\\'): '\\\\', ord('"'): '\\"', ord('\n'): '\\n', ord('\r'): '\\r', ord('\t'): '\\t'}
+    return ''.join(short.get(b, chr(b) if 32 <= b < 127 else f'\\{b:03o}') for b in s.encode('utf-8'))
-- 
2.43.0


From a229911c4b8025d79ac01532b82c5ee8116d076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 046/104] fix: a name resolves to a file of exactly that name
 before any file with a similar name

---
 src/mccode_antlr/reader/reader.py   | 31 ++++++++++-------------------
 src/mccode_antlr/reader/registry.py | 11 ++++++++--
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index 274283c..e29d8e9 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -65,34 +65,25 @@ class Reader:
     def add_c_flags(self, flags):
         self.c_flags.append(flags)
 
-    def locate(self, name: str, which: str = None, ext: str = None, strict: bool = False):
+    def _provider(self, name: str, which: str = None, ext: str = None, strict: bool = False):
+        """The first registry which has the named file or, if allowed, one with a similar name"""
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        for reg in registries:
-            if reg.known(name, ext, strict=strict):
-                return reg.path(name, ext)
+        for only_strict in (True,) if strict else (True, False):
+            for reg in registries:
+                if reg.known(name, ext, strict=only_strict):
+                    return reg
         names = [reg.name for reg in registries]
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
         raise RuntimeError(f'{name} not found in {msg}')
 
+    def locate(self, name: str, which: str = None, ext: str = None, strict: bool = False):
+        return self._provider(name, which, ext, strict).path(name, ext)
+
     def contents(self, name: str, which: str = None, ext: str = None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries
-                                                            if x.name in which]
-        for reg in registries:
-            if reg.known(name, ext, strict=strict):
-                return reg.contents(name, ext)
-        names = [reg.name for reg in registries]
-        msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(
-            names)
-        raise RuntimeError(f'{name} not found in {msg}')
+        return self._provider(name, which, ext, strict).contents(name, ext)
 
     def fullname(self, name: str, which: str = None, ext: str=None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        for reg in registries:
-            if reg.known(name, ext, strict=strict):
-                return reg.fullname(name, ext)
-        names = [reg.name for reg in registries]
-        msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
-        raise RuntimeError(f'{name} not found in {msg}')
+        return self._provider(name, which, ext, strict).fullname(name, ext)
 
     def known(self, name: str, which: str = None, strict: bool = False):
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 6678ff2..9a59e29 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -137,13 +137,20 @@ class RemoteRegistry(Registry):
     def known(self, name: str, ext: str = None, strict: bool = False):
         compare = _name_plus_suffix(name, ext)
         # the files *in* the registry are already posix paths, so that makes life easier
+        if any(x == compare or x.endswith(f'/{compare}') for x in self.pooch.registry_files):
+            return True
+        if strict:
+            # a name without any extension can still be that of one file
+            return ext is None and Path(compare).suffix == '' and any(
+                f'/{x}'.endswith(f'/{compare}') for x in (Path(y).with_suffix('').as_posix() for y in self.pooch.registry_files)
+            )
         if any(x.endswith(compare) for x in self.pooch.registry_files):
             return True
         # fall back to matching without the extension:
         if any(Path(x).with_suffix('').as_posix().endswith(compare) for x in self.pooch.registry_files):
             return True
         # Or matching *any* file that contains name
-        return False if strict else any(name in x for x in self.pooch.registry_files)
+        return any(name in x for x in self.pooch.registry_files)
 
     def unique(self, name: str):
         return sum(name in x for x in self.pooch.registry_files) == 1
@@ -157,7 +164,7 @@ class RemoteRegistry(Registry):
                 return registry_file
         # second step, exact match to filename:
         for registry_file in self.pooch.registry_files:
-            if Path(registry_file).parts[-1] == compare:
+            if registry_file.endswith(f'/{compare}'):
                 return registry_file
         # fall back to matching without the extension:
         if not exact:
-- 
2.43.0


From 5a0cdaa38dbb912290e5da8356502e11931f3069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 047/104] fix: a component in a directory of its own name is
 found in a local registry

---
 src/mccode_antlr/reader/registry.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 9a59e29..653c05c 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -301,10 +301,10 @@ class LocalRegistry(Registry):
         return self.root.glob(f'**/*.{filetype}')
 
     def _file_iterator(self, name: str):
-        return self.root.glob(f'**/{name}')
+        return (x for x in self.root.glob(f'**/{name}') if x.is_file())
 
     def _exact_file_iterator(self, name: str):
-        return self.root.glob(name)
+        return (x for x in self.root.glob(name) if x.is_file())
 
     def known(self, name: str, ext: str = None, strict: bool = False):
         compare = _name_plus_suffix(name, ext)
@@ -319,15 +319,15 @@ class LocalRegistry(Registry):
         is_compare = list(self._exact_file_iterator(compare))
         if len(is_compare) == 1:
             return is_compare[0]
+        if not exact:
+            ends_with_compare = list(self._file_iterator(compare))
+            if len(ends_with_compare) == 1:
+                return ends_with_compare[0]
         # Complete match if name happens to be missing the extension
         is_name = list(self._exact_file_iterator(name))
         if len(is_name) == 1:
             return is_name[0]
         if not exact:
-            from loguru import logger
-            ends_with_compare = list(self._file_iterator(compare))
-            if len(ends_with_compare) == 1:
-                return ends_with_compare[0]
             # Complete match if name happens to be missing the extension
             ends_with_name = list(self._file_iterator(name))
             if len(ends_with_name) == 1:
-- 
2.43.0


From f199909045ff8bb20c81fa0c9d1bb483f6ae9f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 048/104] fix: a SEARCH string can name its source before
 giving its place

---
 src/mccode_antlr/reader/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 653c05c..abf2c61 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -439,6 +439,9 @@ def registry_from_specification(spec: str):
     """
     if isinstance(spec, Registry):
         return spec
+    if len(spec) > 1 and spec[0] == spec[-1] == '"' and '"' not in spec[1:-1]:
+        # a single string literal which holds the whole specification
+        spec = spec[1:-1]
     parts = spec.split()
     if len(parts) == 0:
         return None
-- 
2.43.0


From c950523d07e9e99dbaaf95402088c7aac110a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 049/104] fix: SHELL and SEARCH SHELL run the command which
 their string holds

---
 src/mccode_antlr/instr/visitor.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index d5f8e48..996584f 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -351,18 +351,17 @@ class InstrVisitor(McInstrVisitor):
 
     def visitShell(self, ctx: McInstrParser.ShellContext):
         from subprocess import run
-        args = str(ctx.StringLiteral()).split(' ')
-        run(args, shell=True, check=True)
+        run(str(ctx.StringLiteral())[1:-1], shell=True, check=True)
 
     def visitSearchPath(self, ctx: McInstrParser.SearchPathContext):
         self.parent.handle_search_keyword(str(ctx.StringLiteral()))
 
     def visitSearchShell(self, ctx: McInstrParser.SearchShellContext):
         from subprocess import run
-        args = str(ctx.StringLiteral()).split()
-        res = run(args, shell=True, capture_output=True, check=True)
-        for specs in res.stdout.decode().split('\n'):
-            self.parent.handle_search_keyword(specs)
+        res = run(str(ctx.StringLiteral())[1:-1], shell=True, capture_output=True, check=True)
+        for specs in res.stdout.decode().splitlines():
+            if specs.strip():
+                self.parent.handle_search_keyword(specs)
 
     # TODO Make this and the identical list of visitors in comp/visitor.py a single definition ... somehow
     # FIXME There *are* no statements in McCode, so all identifiers always produce un-parsable values.
-- 
2.43.0


From 0a7bdb16b58962a5213af54105a0aafd7d97637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 050/104] fix: an instrument keeps the sources which its SEARCH
 keywords add, in front of all others

---
 src/mccode_antlr/loader/loader.py | 3 ++-
 src/mccode_antlr/reader/reader.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/loader.py b/src/mccode_antlr/loader/loader.py
index 5aaffce..0464d36 100644
--- a/src/mccode_antlr/loader/loader.py
+++ b/src/mccode_antlr/loader/loader.py
@@ -23,7 +23,8 @@ def parse_mccode_instr(contents: str, registries: list[Registry], source: str =
     visitor = InstrVisitor(reader, source or '<string>')
     instr = visitor.visitProg(McInstr_parse(InputStream(contents), 'prog'))
     instr.flags += tuple(reader.c_flags)
-    instr.registries += tuple(registries)
+    # including any which were added while reading
+    instr.registries += tuple(reader.registries)
     return instr
 
 
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index e29d8e9..c09f392 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -58,6 +58,8 @@ class Reader:
         if not any(registries_match(reg, spec) for reg in self.registries):
             reg = registry_from_specification(spec)
             if reg is not None:
+                # comes first here and wherever the same registries are sorted again
+                reg.priority = max([reg.priority, *(x.priority for x in self.registries)])
                 self.prepend_registry(reg)
             else:
                 raise RuntimeError(f"Registry specification {spec} did not specify a valid registry!")
-- 
2.43.0


From 6f03c21b5eeb9a08fb8d1063e6e15cd96cea5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 051/104] fix: a rotation part given in radian is not converted
 a second time

---
 src/mccode_antlr/instr/orientation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index af82cea..68e6e51 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -638,8 +638,7 @@ class RotationPart(Part):
         return self.rotation_axis, self.v, 'degrees' if self.degrees else 'radian'
 
     def _cos_sin_one_zero(self):
-        r = self.v if self.degrees else degree_to_radian(self.v)
-        return cos_value(r), sin_value(r), Expr.float(1), Expr.float(0)
+        return cos_value(self.v, self.degrees), sin_value(self.v, self.degrees), Expr.float(1), Expr.float(0)
 
     def position(self, which=None) -> Vector:
         z = Expr.float(0)
-- 
2.43.0


From 52afbeea2565aed7cfbbc7796303280058b50400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 052/104] fix: the sign of a rotation angle around its axis
 follows from the whole rotation

---
 src/mccode_antlr/instr/orientation.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 68e6e51..522ddd6 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -463,7 +463,7 @@ class Part:
     @property
     def rotation_axis_angle(self) -> tuple[Vector, Expr, str]:
         from numpy.linalg import eig
-        from numpy import array, argmin, sqrt, real, imag, conj, sum
+        from numpy import array, argmin, dot, sqrt, real, imag, conj, sum
         if not self.is_constant:
             raise RuntimeError('Not possible to determine the rotation axis and angle of a variable general transform')
         # For the matrix A in cross(axis, v) = A v,
@@ -484,14 +484,13 @@ class Part:
         if abs(cos_angle) > 1:
             logger.warning(f'Invalid cos(angle) {cos_angle} for {self}')
             cos_angle = 1 if cos_angle > 0 else -1
+        # R - R^T = 2 A sin(angle) gives the sign of the angle around this axis
+        sin_angle = dot(axis, [matrix[2][1] - matrix[1][2],
+                               matrix[0][2] - matrix[2][0],
+                               matrix[1][0] - matrix[0][1]]) / 2
         angle = Expr.float(acos_degree(cos_angle))
         axis = Vector(Expr.float(axis[0]), Expr.float(axis[1]), Expr.float(axis[2]))
-
-        # Check that the rotation matrix signs all match:
-        a = axis.cross_matrix()
-        r = Matrix.eye() + a * sin_value(angle, True) + (a * a) * (Expr.float(1) - cos_value(angle, True))
-        # and flip the sign of angle if not:
-        return axis, -angle if any(flat[index] * r[index] < Expr.float(0) for index in range(9)) else angle, 'degrees'
+        return axis, -angle if sin_angle < 0 else angle, 'degrees'
 
     def __str__(self):
         x = [f'{x}' for x in self._axes]
-- 
2.43.0


From 3ebc89d89e3bc54fc895c930320461d6087bafeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 053/104] fix: the angles of a rotation part are given in the
 unit which was asked for

---
 src/mccode_antlr/instr/orientation.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 522ddd6..ae8d902 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -636,6 +636,13 @@ class RotationPart(Part):
     def rotation_axis_angle(self) -> tuple[Vector, Expr, str]:
         return self.rotation_axis, self.v, 'degrees' if self.degrees else 'radian'
 
+    def _angle(self, degrees: bool):
+        """The angle in degrees or radian"""
+        from math import pi
+        if degrees == self.degrees:
+            return self.v
+        return self.v * Expr.float(180 / pi) if degrees else degree_to_radian(self.v)
+
     def _cos_sin_one_zero(self):
         return cos_value(self.v, self.degrees), sin_value(self.v, self.degrees), Expr.float(1), Expr.float(0)
 
@@ -664,7 +671,7 @@ class RotationX(RotationPart):
 
     def angles(self, which=None, degrees=True) -> Angles:
         z = Expr.float(0)
-        return Angles(self.v, z, z)
+        return Angles(self._angle(degrees), z, z)
 
     def __str__(self):
         return f'(0, 0, 0) [{self.v}, 0, 0]'
@@ -685,7 +692,7 @@ class RotationY(RotationPart):
 
     def angles(self, which=None, degrees=True) -> Angles:
         z = Expr.float(0)
-        return Angles(z, self.v, z)
+        return Angles(z, self._angle(degrees), z)
 
     def __str__(self):
         return f'(0, 0, 0) [0, {self.v}, 0]'
@@ -706,7 +713,7 @@ class RotationZ(RotationPart):
 
     def angles(self, which=None, degrees=True) -> Angles:
         z = Expr.float(0)
-        return Angles(z, z, self.v)
+        return Angles(z, z, self._angle(degrees))
 
     def __str__(self):
         return f'(0, 0, 0) [0, 0, {self.v}]'
-- 
2.43.0


From 5d41e8cae19a91b373395421e1e64b0fca0d2d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 054/104] fix: close the parenthesis of instrument parameters
 in SAVE code

---
 src/mccode_antlr/translators/c_save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_save.py b/src/mccode_antlr/translators/c_save.py
index b4eeb49..4fdcd61 100644
--- a/src/mccode_antlr/translators/c_save.py
+++ b/src/mccode_antlr/translators/c_save.py
@@ -22,7 +22,7 @@ def cogen_save(source, declared_parameters):
         ])
         for par in source.parameters:
             # ensure there's no conflict of names
-            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name}')
+            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name})')
         for block in source.save:
             lines.append(block.to_c())
         for par in source.parameters:
-- 
2.43.0


From 8569ddeefbda01b0ac2c7d8fcd733f1de53ca233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 055/104] fix: component parameters can be arrays of integers

---
 src/mccode_antlr/comp/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 6a2a24b..3f15d7f 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -121,12 +121,12 @@ class CompVisitor(McCompVisitor):
     def visitComponentParameterIntegerArray(self, ctx: Parser.ComponentParameterIntegerArrayContext):
         from ..common import Value, DataType, ShapeType
         name = str(ctx.Identifier(0))
-        if ctx.assign() is not None and ctx.initializerlist() is not None:
+        if ctx.Assign() is not None and ctx.initializerlist() is not None:
             value = self.visit(ctx.initializerlist())
             value.data_type = DataType.int
         else:
             default = None
-            if ctx.assign() is not None:
+            if ctx.Assign() is not None:
                 default = "NULL"
                 if ctx.Identifier(1) is not None:
                     default = str(ctx.Identifier(1))
-- 
2.43.0


From 95d9682287ec872da0281e0c8d278f8ccd4465c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 056/104] fix: operations have a C type and are checked against
 given values, as plain values are

---
 src/mccode_antlr/common/expression.py | 29 +++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index da07e86..1f41785 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -217,6 +217,8 @@ def _nodes(x):
 
 
 class Op:
+    _shape = None  # unless something else was determined, the shape is the one of the operands
+
     def __init__(self):
         self.data_type = DataType.undefined
         self.style = 'C'  # there should be a better way to do this
@@ -247,6 +249,31 @@ class Op:
     def __int__(self):
         raise RuntimeError('No conversion to int for operations')
 
+    @property
+    def shape_type(self):
+        return self._shape if self._shape is not None else ShapeType.vector if self.is_vector else ShapeType.scalar
+
+    @shape_type.setter
+    def shape_type(self, st):
+        if not isinstance(st, ShapeType):
+            raise RuntimeError('Non ShapeType value set for shape_type')
+        self._shape = st
+
+    def _typed(self):
+        """A value of the same type"""
+        return Value(None, data_type=self.data_type, shape_type=self.shape_type)
+
+    def compatible(self, other, id_ok=False):
+        return self._typed().compatible(other, id_ok)
+
+    @property
+    def mccode_c_type(self):
+        return self._typed().mccode_c_type
+
+    @property
+    def mccode_c_type_name(self):
+        return self._typed().mccode_c_type_name
+
     @property
     def is_op(self):
         return True
@@ -1380,8 +1407,6 @@ class Expr:
     def mccode_c_type(self):
         if len(self.expr) != 1:
             raise RuntimeError('No McCode C type for array Expr objects')
-        if not isinstance(self.expr[0], Value):
-            logger.critical(f'Why is {self.expr[0]} not a Value?')
         return self.expr[0].mccode_c_type
 
     @property
-- 
2.43.0


From bfdcc091442110f45ba9ef6a3450813d14f78d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 057/104] fix: arrays among USERVARS are arrays in the particle

---
 src/mccode_antlr/translators/c_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index 19c5912..be11255 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -40,7 +40,7 @@ def header_pre_runtime(
     # Also store these strings in the appropriate instrument list for later def/undef as state variables
 
     uservar_string = '//user variables and comp - injections:\n' if len(uservars) else ''
-    uservar_string += '\n'.join([f'  {x};' for x in uservars])
+    uservar_string += '\n'.join([f'  {x.as_struct_member()};' for x in uservars])
 
     members = list(accessible_struct_members(is_mcstas)) + [x.name for x in uservars]
     # Shouldn't we exclude array-valued names here?
-- 
2.43.0


From 68890f47b4a0153ff7296c03abce6ea6e2ea7678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 058/104] fix: private variables get the whole initializer
 which they are declared with

---
 src/mccode_antlr/translators/c_initialise.py | 18 +++++++-----------
 src/mccode_antlr/translators/c_listener.py   |  3 +++
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index bda27d3..9bb46f8 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -197,18 +197,14 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
     # >>> End of first call to `cogen_comp_init_par`
     # <<< Start of second call to `cogen_comp_init_par`: `cogen_comp_init_par(comp, instr, "PRIVATE")`
     for c_dec in component_declared_parameters[comp.type.name]:
-        # c_dec is a CDeclare named tuple with (name, type, init, is_pointer, is_array, orig)
-        initialized_value = 'NULL' if (c_dec.is_pointer and c_dec.init is None) else c_dec.init
+        # c_dec is a CDeclarator, which has the text of the initializer if there was one
         fullname = f'_{comp.name}_var._parameters.{c_dec.name}'
-        if c_dec.is_array and initialized_value is not None:
-            for i, val in enumerate(initialized_value.strip('{}').split(',')):
-                lines.append(f'  {fullname}[{i}] = {val.strip()};')
-        # elif c_dec.is_struct and initialized_value is not None:
-        #     # deal with a structured initializer ...
-        #     # = {.x=#, .y=#, ...}
-        #     pass
-        elif initialized_value is not None:
-            lines.append(f'  {fullname} = {initialized_value};')
+        if c_dec.init is not None and (c_dec.is_array or c_dec.init.lstrip().startswith('{')):
+            # only a declaration can have a list as (or a string fill an array by) its initializer
+            lines.append(f'  {{ {c_dec.as_struct_member()} = {c_dec.init};')
+            lines.append(f'    memcpy(&{fullname}, &{c_dec.name}, sizeof({fullname})); }}')
+        elif c_dec.init is not None or (c_dec.is_pointer and not c_dec.is_array):
+            lines.append(f'  {fullname} = {"NULL" if c_dec.init is None else c_dec.init};')
     # >>> End of second call to `cogen_comp_init_par`
 
     # position/rotation
diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 38e7d26..bacc6ef 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -200,6 +200,9 @@ def extract_initializer_size(init: str) -> tuple[int,...]:
     (4, 2, 1)
     """
     import re
+    if init.lstrip().startswith('"'):
+        # a string: the compiler knows how many characters are in it
+        return (f'sizeof({init})',)
     size = []
     inner = re.compile('{([^{}]*)}')
     x = init
-- 
2.43.0


From e555b38789e95b6f36a3ed50d898fca8417718aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:58 +0000
Subject: [PATCH 059/104] fix: each needed library is included once, after
 everything which it includes

---
 src/mccode_antlr/translators/c.py | 217 ++++++++++++------------------
 1 file changed, 84 insertions(+), 133 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 262b0be..3c4b666 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -1,6 +1,7 @@
 """Translates a McComp instrument from its intermediate form to a C runtime source file."""
 from loguru import logger
 from dataclasses import dataclass
+from itertools import islice
 from ..reader import LIBC_REGISTRY
 from .target import TargetVisitor
 from .c_listener import extract_c_declared_variables
@@ -8,67 +9,37 @@ from .c_listener import extract_c_declared_variables
 
 @dataclass
 class CInclude:
+    """A library, its declarations (and definitions, if they go in the generated source) and what each includes"""
     parent: str
     name: str
-    order: int
     content: str = ''
-    root: str = ''
-
-    def __hash__(self):
-        return hash(self.parent + self.name + self.content + self.root)
+    definitions: str = ''
+    header_includes: tuple[str, ...] = ()
+    source_includes: tuple[str, ...] = ()
 
     def __str__(self):
-        return f'{self.root}:{self.parent}({self.order}):{self.name}'
-
-    def __lt__(self, other):
-        if self.parent == other.parent:
-            return self.order > other.order
-        if self.root or other.root:
-            if self.parent == self.root or self.parent == other.root:
-                return True
-            if other.parent == self.root or other.parent == other.root:
-                return False
-        if self.parent == other.name:
-            return False
-        if other.parent == self.name:
-            return True
-        return self.name < other.name
-
-
-def sort_include_hierarchy(includes: list[CInclude]):
-    if len(includes) == 0:
-        return []
-    logger.debug(f'sort includes {" ".join(str(x) for x in includes)}')
-    # find the 'root' of the tree, a parent which is _not_ a named include:
-    roots = list(set([x.parent for x in includes]).difference(set([x.name for x in includes])))
-    options = {}
-    for root in roots:
-        for include in includes:
-            include.root = root
-        # Sort the includes such that if A includes B and C, and C includes B, then we get [C:B, A:C, A:B]
-        # Or a more complicated case: G:(Z,A,W), Z:(B,Y), A:X, W(Y) -> [Z:Y, W:Y, A:X, B:W, Z:B, G:A, G:Z, G:W]
-        used, output = [], []
-        for include in sorted(includes, reverse=True):
-            if include.name not in used:
-                output.append(include)
-                used.append(include.name)
-        # Reduce output to [C:B, A:C], or [Z:Y, A:X, B:W, Z:B, G:A, G:Z], which would include the libraries correctly
-        # Double check, that the include order does not _directly_ contradict one of the include directives:
-        order = [x.name for x in output]
-        contradicts = False
-        for include in includes:
-            if include.parent in order and include.name in order:
-                parent_at = [index for index, name in enumerate(order) if name == include.parent][0]
-                name_at = [index for index, name in enumerate(order) if name == include.name][0]
-                if name_at > parent_at:
-                    contradicts = True
-        if not contradicts:
-            logger.debug(f"sorted to {'  '.join(order)}")
-            options[root] = output
-    if len(options) == 0:
-        raise RuntimeError(f'No valid sorting of {includes=}')
-    # Maybe there's a case where the specified root matters?
-    return list(options.values())[0]
+        return f'{self.parent}:{self.name}'
+
+
+def sort_definitions(libraries: list[CInclude]) -> list[CInclude]:
+    """Sort libraries such that the definitions of all which a library includes come before its own
+
+    Definitions which include each other can only be in the order they are found in.
+    """
+    named = {library.name: library for library in libraries}
+    output, visited = [], set()
+
+    def visit(library):
+        if library.name in visited:
+            return
+        visited.add(library.name)
+        for name in (*library.header_includes, *library.source_includes):
+            visit(named[name])
+        output.append(library)
+
+    for each in libraries:
+        visit(each)
+    return output
 
 
 class CTargetVisitor(TargetVisitor, target_language='c'):
@@ -86,58 +57,58 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
             lines = [line.encode('unicode-escape').decode('utf-8') for line in lines]
         return '\n'.join(lines)
 
-    def _handle_raw_c_include(self, parent: str, raw_c: str):
+    def _handle_raw_c_include(self, raw_c: str):
+        """Find the %include statements in a block of code
+
+        A statement with an extension is replaced by the contents of the file, in which there can be more statements.
+        One without an extension is for a library (.h, plus .c if embedding the runtime). McCode3 would insert the
+        library immediately on first-encounter, but we want to collect all libraries and ensure they're included
+        before all components; the statement is erased.
+
+        :return: the names of all libraries, in the order they are included, and the code
+        """
         import re
-        re_lib = re.compile(r'^\s*%include\s*"(?P<libname>[^"\n\.]+)"\s*$', re.MULTILINE)
-        re_inc = re.compile(r'^\s*%include\s*"(?P<filename>[^"\n]+)"\s*$', re.MULTILINE)
-        # Include statements without an extension are library includes (.h, plus .c if embedding the runtime)
-        # McCode3 would insert the library immediately on first-encounter, but we want to collect all libraries
-        # and ensure they're included before all components.
-
-        # Get any library names in this block:
-        libraries = list(dict.fromkeys([match.group('libname') for match in re_lib.finditer(raw_c)]))
-        # *erase* the library includes from the block:
-        raw_c = re.sub(re_lib, '', raw_c)
-
-        # We must look through the to-be-included code *now* to see if it *also* includes more libraries.
-        includes = [CInclude(parent=parent, name=lib, order=index, content=self._file_contents(f'{lib}.h'))
-                    for index, lib in enumerate(libraries)]
-        new_includes = []
-        for include in includes:
-            found_includes, include.content = self._handle_raw_c_include(include.name, include.content)
-            if found_includes:
-                new_includes.extend(found_includes)
-                new_includes = list(dict.fromkeys(new_includes))
-        if len(new_includes):
-            includes.extend(new_includes)
-            includes = list(dict.fromkeys(includes))
-
-        # If there are any non-library includes remaining, we should insert them immediately:
-        matches = list(re_inc.finditer(raw_c))
-        count = 0
-        while len(matches):
-            count += 1
-            # matches[0] is a re.Match object with (start, stop) = matches[0].span(0) including the full matched string
-            # We can use this directly to replace the match without using re.sub, which can cause problems if there are
-            # escape characters in the replacement (It seems)
-            start, stop = matches[0].span(0)
-            raw_c = raw_c[:start] + self._file_contents(matches[0].group('filename')) + raw_c[stop:]
-
-            #filename = matches[0].group('filename')
-            #this_re = re.compile(rf'^\s*%include\s*"{filename}"\s*$', re.MULTILINE)
-            #logger.info(f'Replacing {this_re} with file contents from {filename}')
-            #raw_c = re.sub(this_re, self._file_contents(filename, True), raw_c)
-
-            # re-match since we modified raw_c
-            matches = list(re_inc.finditer(raw_c))
-
-        if count:
-            found_includes, raw_c = self._handle_raw_c_include(parent, raw_c)
-            if len(found_includes):
-                includes.extend(found_includes)
-                includes = list(dict.fromkeys(includes))
-
-        return includes, raw_c
+        libraries = []
+
+        def replacement(match):
+            name = match.group('name')
+            if '.' not in name:
+                libraries.append(name)
+                return ''
+            found, contents = self._handle_raw_c_include(self._file_contents(name))
+            libraries.extend(found)
+            return contents
+
+        statement = re.compile(r'^[^\S\n]*%include\s*"(?P<name>[^"\n]+)"[^\S\n]*$', re.MULTILINE)
+        raw_c = statement.sub(replacement, raw_c)
+        return tuple(dict.fromkeys(libraries)), raw_c
+
+    def _add_declarations(self, parent: str, names: tuple[str, ...], pending: tuple[str, ...] = ()):
+        """Add libraries to those included, each after all that its declarations include"""
+        for name in names:
+            if name in pending or any(x.name == name for x in self.includes):
+                continue
+            library = CInclude(parent=parent, name=name)
+            library.header_includes, library.content = self._handle_raw_c_include(self._file_contents(f'{name}.h'))
+            self._add_declarations(name, library.header_includes, (*pending, name))
+            self.includes.append(library)
+
+    def _add_libraries(self, parent: str, names: tuple[str, ...]):
+        """Add libraries, and those which they include, to those included"""
+        first = len(self.includes)
+        self._add_declarations(parent, names)
+        if self.config.get('include_runtime'):
+            # the definitions of each can include more libraries, which are found in later iterations
+            for library in islice(self.includes, first, None):
+                c_name = f'{library.name}.c'
+                found = self._handle_raw_c_include(self._file_contents(c_name))
+                library.source_includes, library.definitions = found
+                self._add_declarations(c_name, library.source_includes)
+
+    def _translate_includes(self, parent: str, blocks):
+        for block in blocks:
+            libraries, block.translated = self._handle_raw_c_include(block.source)
+            self._add_libraries(parent, libraries)
 
     def _parse_libraries_for_typedefs(self):
         from .c_listener import extract_c_defined_types as parse
@@ -243,25 +214,15 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
                 logger.warning(f"Requested McCode libc version {reg.version} may"
                                " cause errors since it is less than v3.5.20")
 
-        includes = []
+        self.includes = []
         inst = self.source
         for grp in (inst.user, inst.declare, inst.initialize, inst.save, inst.final):
-            for block in grp:
-                incs, block.translated = self._handle_raw_c_include(inst.name, block.source)
-                includes.extend(incs)
-                includes = list(dict.fromkeys(includes))
+            self._translate_includes(inst.name, grp)
         for typ in inst.component_types():
             for grp in (typ.share, typ.user, typ.declare, typ.initialize, typ.trace, typ.save, typ.final, typ.display):
-                for block in grp:
-                    incs, block.translated = self._handle_raw_c_include(typ.name, block.source)
-                    includes.extend(incs)
-                    includes = list(dict.fromkeys(includes))
+                self._translate_includes(typ.name, grp)
         for instance in inst.components:
-            for block in instance.extend:
-                incs, block.translated = self._handle_raw_c_include(instance.name, block.source)
-                includes.extend(incs)
-                includes = list(dict.fromkeys(includes))
-        self.includes = sort_include_hierarchy(includes)
+            self._translate_includes(instance.name, instance.extend)
 
         # search the library headers for type definitions:
         self._parse_libraries_for_typedefs()
@@ -330,18 +291,8 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
 
     def include_source(self, source: CInclude):
         self.info(f'include {source} source')
-        # c files can %include *more* files! If the specified files have already been included, there's nothing
-        # to do. Otherwise, panic.
-        lib_names = [lib.name for lib in self.includes]
-        c_name = f'{source.name}.c'
-        c_libraries, c_content = self._handle_raw_c_include(c_name, self._file_contents(c_name))
-        for c_lib in [c_lib for c_lib in c_libraries if c_lib.name not in lib_names]:
-            logger.info(f'{c_name} requested {c_lib.name} but is has not been included yet!')
-            self.include_header(c_lib)
-            self.include_source(c_lib)
-            #self.includes.append(c_lib)
         self.out(f'/* Contents of {source.name}.c (requested from {source.parent}) */')
-        self.out(c_content)
+        self.out(source.definitions)
 
     def visit_declare(self):
         from .c_decls import declarations_pre_libraries
@@ -358,7 +309,7 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
 
         self.info('Include runtime / list dependencies')
         if self.config.get('include_runtime'):
-            for include in self.includes:
+            for include in sort_definitions(self.includes):
                 self.include_source(include)
         else:
             for include in self.includes:
-- 
2.43.0


From 8a62a41cd6f0782ae5ff88a674a52eaa7c34824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 060/104] fix: an included file is the one with exactly the
 given name, if there is one

---
 src/mccode_antlr/translators/target.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 9dfe1bc..cc98ee7 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -61,9 +61,11 @@ class TargetVisitor:
 
     def locate(self, name: str, which: str = None):
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        for reg in registries:
-            if reg.known(name):
-                return reg.path(name)
+        # a file of exactly this name comes before any with a similar name
+        for strict in (True, False):
+            for reg in registries:
+                if reg.known(name, strict=strict):
+                    return reg.path(name)
         names = [reg.name for reg in registries]
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
         raise RuntimeError(f'{name} not found in {msg}')
-- 
2.43.0


From 995dd73f49ce35670e28ed9b10404e441955abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 061/104] fix: a range has the same values when iterated,
 indexed and counted

---
 src/mccode_antlr/run/range.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index b56f36b..9cd6d14 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -29,14 +29,10 @@ class MRange:
         return self.stop
 
     def __iter__(self):
-        def range_gen(start, stop, step):
-            v = start
-            i = 0
-            while (step > 0 and v + step <= stop) or (step < 0 and v + step >= stop):
-                v = i * step + start
-                i += 1
-                yield v
-        return range_gen(self.start, self.stop, self.step)
+        def range_gen(start, step, count):
+            for i in range(count):
+                yield i * step + start
+        return range_gen(self.start, self.step, len(self))
 
     def __getitem__(self, index: int):
         if index < 0 or index >= len(self):
@@ -50,7 +46,10 @@ class MRange:
         return f'MStyleRange({self})'
 
     def __len__(self):
-        return int((self.stop - self.start) / self.step) + 1
+        from math import floor
+        # the number of whole steps, which for decimal steps can be a rounding error short of a whole number
+        steps = (self.stop - self.start) / self.step
+        return max(floor(steps + 1e-9 * max(1, abs(steps))) + 1, 0)
 
     @classmethod
     def from_str(cls, string):
-- 
2.43.0


From 29a983c53b971994862738db4811218a6a44585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 062/104] fix: scan points keep parameter names, take any
 single value and leave the parameters alone

---
 src/mccode_antlr/run/range.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index 9cd6d14..79dea53 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -162,23 +162,29 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
     :parameter parameters: A dictionary of ranged parameters.
     :parameter grid: Controls how the parameters are iterated; True implies a grid scan, False implies a linear scan.
     """
-    if grid:
-        for k, v in parameters.items():
-            if isinstance(v, Singular):
-                parameters[k] = Singular(v.value, 1)
-
-    names = [x.lower() for x in parameters.keys()]
-    values = [x if hasattr(x, '__iter__') else [x] for x in parameters.values()]
+    def as_values(value):
+        if isinstance(value, Singular):
+            # On its own a singular value is one point along its axis of a grid
+            return [value.value] if grid or value.maximum is None else value
+        if isinstance(value, str) or not hasattr(value, '__iter__'):
+            return [value]
+        return value
+
+    names = list(parameters.keys())
+    values = [as_values(value) for value in parameters.values()]
     if not len(values):
         return 0, names, []
-    elif grid:
+    for name, value in zip(names, values):
+        if not len(value):
+            raise ValueError(f'Parameter {name} has no values')
+    if grid:
         from itertools import product
         from math import prod
         # singular MRange objects *should* stop the grid along their axis:
         n_pts = prod([len(v) for v in values])
         return n_pts, names, product(*values)
     else:
-        # replace singular MRange entries with Singular iterators, to avoid stopping the zip early:
+        # repeat single values, to avoid stopping the zip early:
         n_max = max([len(v) for v in values])
         for i, v in enumerate(values):
             if len(v) > 1 and len(v) != n_max:
@@ -186,7 +192,7 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
                 par = 'parameters' if len(oth) > 1 else 'parameter'
                 have = 'have' if len(oth) > 1 else 'has'
                 raise ValueError(f'Parameter {names[i]} has {len(v)} values, but {par} {", ".join(oth)} {have} {n_max}')
-        return n_max, names, zip(*[v if len(v) > 1 else Singular(v[0] if isinstance(v, MRange) else v.value, n_max) for v in values])
+        return n_max, names, zip(*[v if len(v) > 1 else Singular(next(iter(v)), n_max) for v in values])
 
 
 def _MRange_or_Singular(s: str):
-- 
2.43.0


From f197da17f3665f6e920d1025d5c7224700456e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 063/104] fix: single values which are not written as Python
 writes numbers keep their text

---
 src/mccode_antlr/run/range.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index 79dea53..54b18bf 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -124,14 +124,14 @@ class Singular:
     @classmethod
     def from_str(cls, string):
         def float_or_int_or_str(s):
-            try:
-                return int(s)
-            except ValueError:
-                pass
-            try:
-                return float(s)
-            except ValueError:
-                return s
+            # A value which could be a number is only replaced by that number if it can be written again unchanged
+            for number in (int, float):
+                try:
+                    if str(number(s)) == s:
+                        return number(s)
+                except ValueError:
+                    pass
+            return s
 
         if string.count(':') > 0:
             raise ValueError(f'Singular string {string} contains a colon')
-- 
2.43.0


From 233c672f0ec890107e0574b4d03e1ae9475cad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 064/104] fix: every point of a scan runs with its own values
 and directory

---
 src/mccode_antlr/run/runner.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 0a09363..e2a94c7 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -164,11 +164,17 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
     # n_zeros = len(str(n_pts))
 
     args = regular_mccode_runtime_dict(r_args)
+    # every point has its own output directory
+    given_directory = args.pop('dir', None)
+    if directory is None:
+        directory = given_directory
 
     if directory is None:
         from datetime import datetime
         directory = Path(f'{name}{datetime.now().strftime("%Y%m%d_%H%M%S")}')
 
+    directory = Path(directory)
+
     # if there is only one point, we don't need to scan
     if n_pts > 1:
         directory.mkdir(parents=True, exist_ok=True)
@@ -177,14 +183,14 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
             # TODO Use the following line instead of the one after it when McCode is fixed to use zero-padded folder names
             # # runtime_arguments['dir'] = args["dir"].joinpath(str(number).zfill(n_zeros))
             this_directory = directory.joinpath(str(number))
-            pars = mccode_runtime_parameters(r_args, parameters)
+            pars = mccode_runtime_parameters(args, dict(zip(names, values)))
             r, d = mccode_run_compiled(binary, target, this_directory, pars, capture=capture, dry_run=dry_run)
             results.append((r, d))
         return results
     else:
         directory.parent.mkdir(parents=True, exist_ok=True)
-        print(parameters)
-        pars = mccode_runtime_parameters(args, parameters)
+        values = next(iter(scan), ())
+        pars = mccode_runtime_parameters(args, dict(zip(names, values)))
         return mccode_run_compiled(binary, target, directory, pars, capture=capture, dry_run=dry_run)
 
 
-- 
2.43.0


From 595f5006c61e356260665f58c8a576aacd934045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 065/104] fix: values and directories with spaces reach the
 program in one piece

---
 src/mccode_antlr/compiler/c.py |  4 ++--
 src/mccode_antlr/run/runner.py | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index c84b0a0..9ee9f62 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -276,7 +276,7 @@ def compile_instrument(
     return compile_c_instrument(instrument, target, output, replace, dump_source, **kwargs)
 
 
-def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: str, capture=False, dry_run: bool = False):
+def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: Union[str, list[str]], capture=False, dry_run: bool = False):
     from subprocess import run, CalledProcessError
     from platform import system
     from mccode_antlr.config import config
@@ -310,7 +310,7 @@ def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: str, c
         raise RuntimeError(f'Can not execute {binary} since it does not exist.')
 
     # In normal operation, the binary is provided with options
-    command.extend([str(binary), *options.split()])
+    command.extend([str(binary), *(options.split() if isinstance(options, str) else options)])
     # which we then execute:
     if dry_run:
         logger.info(f'Would execute {command}')
diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index e2a94c7..b19fca7 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -49,6 +49,10 @@ def mccode_runtime_dict_to_args_list(args: dict) -> list[str]:
     return out
 
 
+def mccode_runtime_options(args: dict, params: dict) -> list[str]:
+    return mccode_runtime_dict_to_args_list(args) + [f'{k}={v}' for k, v in params.items()]
+
+
 def mccode_runtime_parameters(args: dict, params: dict) -> str:
     first = ' '.join(mccode_runtime_dict_to_args_list(args))
     second = ' '.join(f'{k}={v}' for k, v in params.items())
@@ -147,12 +151,13 @@ def mccode_compile(instr, directory, generator, target: dict | None = None, conf
     return binary, def_target
 
 
-def mccode_run_compiled(binary, target, directory: Path | str, parameters: str, capture: bool = True, dry_run: bool = False):
+def mccode_run_compiled(binary, target, directory: Path | str, parameters: str | list[str], capture: bool = True, dry_run: bool = False):
     from mccode_antlr.compiler.c import run_compiled_instrument
     from mccode_antlr.loader import read_mccode_dat
     from pathlib import Path
 
-    result = run_compiled_instrument(binary, target, f'--dir {directory} {parameters}', capture=capture, dry_run=dry_run)
+    options = ['--dir', str(directory), *(parameters.split() if isinstance(parameters, str) else parameters)]
+    result = run_compiled_instrument(binary, target, options, capture=capture, dry_run=dry_run)
     sim_files = list(Path(directory).glob('**/*.dat'))
     dats = {file.stem: read_mccode_dat(file) for file in sim_files}
     return result, dats
@@ -183,14 +188,14 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
             # TODO Use the following line instead of the one after it when McCode is fixed to use zero-padded folder names
             # # runtime_arguments['dir'] = args["dir"].joinpath(str(number).zfill(n_zeros))
             this_directory = directory.joinpath(str(number))
-            pars = mccode_runtime_parameters(args, dict(zip(names, values)))
+            pars = mccode_runtime_options(args, dict(zip(names, values)))
             r, d = mccode_run_compiled(binary, target, this_directory, pars, capture=capture, dry_run=dry_run)
             results.append((r, d))
         return results
     else:
         directory.parent.mkdir(parents=True, exist_ok=True)
         values = next(iter(scan), ())
-        pars = mccode_runtime_parameters(args, dict(zip(names, values)))
+        pars = mccode_runtime_options(args, dict(zip(names, values)))
         return mccode_run_compiled(binary, target, directory, pars, capture=capture, dry_run=dry_run)
 
 
-- 
2.43.0


From 7cf2a5e6989d30a8be29349c7d33db55194dfcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 066/104] fix: options between the words of the command line
 leave their order alone

---
 src/mccode_antlr/run/runner.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index b19fca7..0bb0aa4 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -88,7 +88,7 @@ def mccode_run_script_parser(prog: str):
     aa = parser.add_argument
 
     aa('filename', type=resolvable, nargs=1, help='.instr file name to be converted')
-    aa('parameters', nargs='*', help='Parameters to be passed to the instrument', type=str, default=None)
+    aa('parameters', nargs='*', help='Parameters to be passed to the instrument', type=str, default=[])
     aa('-o', '--output-file', type=str, help='Output filename for C runtime binary', default=None)
     aa('-d', '--directory', type=str, help='Output directory for C runtime artifacts')
     aa('-I', '--search-dir', action='append', type=resolvable, help='Extra component search directory')
@@ -124,10 +124,9 @@ def print_version_information():
 
 
 def parse_mccode_run_script(prog: str):
-    import sys
     from .range import parse_scan_parameters
-    sys.argv[1:] = sort_args(sys.argv[1:])
-    args = mccode_run_script_parser(prog).parse_args()
+    # options can be anywhere between the file name and the parameters
+    args = mccode_run_script_parser(prog).parse_intermixed_args()
     parameters = parse_scan_parameters(args.parameters)
     return args, parameters
 
-- 
2.43.0


From 5f17e3154dfb67abf2f6031d5deea3dc582fef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 067/104] fix: run programs which are already compiled

---
 src/mccode_antlr/run/runner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 0bb0aa4..040ecb0 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -206,6 +206,7 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
                ):
     from os import access, R_OK
     from datetime import datetime
+    from mccode_antlr.compiler.c import CBinaryTarget
     if not isinstance(directory, Path):
         directory = Path(directory)
     if binary_name is not None:
@@ -220,6 +221,8 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
     if not binary_path.exists():
         config = {'enable_trace': trace, 'embed_instrument_file': source, 'verbose': verbose}
         binary_path, target = mccode_compile(instrument, binary_path, generator, target=target, config=config)
+    else:
+        target = CBinaryTarget(**target)
 
     runtime = dict(
         seed=seed,
@@ -255,7 +258,7 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     target = dict(
         mpi=args.parallel,
         acc=args.gpu,
-        count=args.process_count,
+        count=args.process_count[0] if isinstance(args.process_count, list) else args.process_count,
         nexus=False
     )
     runtime = dict(
@@ -270,7 +273,9 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     )
     # check if the filename is actually a compiled instrument already:
     if args.output_file is None and filename.exists() and access(filename, X_OK):
+        from mccode_antlr.compiler.c import CBinaryTarget
         binary = filename
+        target = CBinaryTarget(**target)
         name = filename.stem
     elif not filename.exists() or not access(filename, R_OK):
         raise RuntimeError(f'{filename} does not exist or is not readable')
-- 
2.43.0


From 530f856f70eb8eebb064504f2cc1c0499e4f366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 068/104] fix: mcstas_run and mcxtrace_run give mccode_run its
 arguments in their order

---
 src/mccode_antlr/run/runner.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 040ecb0..94ef558 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -321,13 +321,11 @@ def mcxtrace_cmd():
     mccode_run_cmd('mcxtrace', MCXTRACE_REGISTRY, MCXTRACE_GENERATOR)
 
 
-def mcstas_run(instrument, directory):
-    from mccode_antlr.reader import MCSTAS_REGISTRY
+def mcstas_run(instrument, directory, parameters: dict | None = None, **kwargs):
     from mccode_antlr.translators.target import MCSTAS_GENERATOR
-    mccode_run(instrument, directory, MCSTAS_REGISTRY, MCSTAS_GENERATOR)
+    mccode_run(instrument, MCSTAS_GENERATOR, parameters or {}, directory, **kwargs)
 
 
-def mcxtrace_run(instrument, directory):
-    from mccode_antlr.reader import MCXTRACE_REGISTRY
+def mcxtrace_run(instrument, directory, parameters: dict | None = None, **kwargs):
     from mccode_antlr.translators.target import MCXTRACE_GENERATOR
-    mccode_run(instrument,  directory, MCXTRACE_REGISTRY, MCXTRACE_GENERATOR)
+    mccode_run(instrument, MCXTRACE_GENERATOR, parameters or {}, directory, **kwargs)
-- 
2.43.0


From 048e10468978991f8ea59914f4dd4d4183322985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 069/104] fix: the category of a component can be an identifier

---
 src/mccode_antlr/comp/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 3f15d7f..36cbcdc 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -41,7 +41,7 @@ class CompVisitor(McCompVisitor):
 
     def visitCategory(self, ctx: Parser.CategoryContext):
         # Return the provided identifier or string literal, minus quotes
-        self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifer())
+        self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifier())
 
     def visitTraceBlock(self, ctx: Parser.TraceBlockContext):
         self.state.TRACE(self.visit(ctx.unparsed_block()))
-- 
2.43.0


From 0af9ca612066427630e8e5000658a6b6b9b572a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 070/104] fix: a section which a copied component definition
 states anew replaces the inherited one

---
 src/mccode_antlr/comp/visitor.py | 47 ++++++++++----------------------
 1 file changed, 15 insertions(+), 32 deletions(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 36cbcdc..576b625 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -1,5 +1,3 @@
-from loguru import logger
-
 from ..grammar import McCompParser as Parser, McCompVisitor
 from .comp import Comp
 from ..common import ComponentParameter, Expr, MetaData
@@ -44,18 +42,15 @@ class CompVisitor(McCompVisitor):
         self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifier())
 
     def visitTraceBlock(self, ctx: Parser.TraceBlockContext):
+        self.state.trace = ()  # replaces what a copied definition has
         self.state.TRACE(self.visit(ctx.unparsed_block()))
         
     def visitTraceBlockCopy(self, ctx: Parser.TraceBlockCopyContext):
-        if len(self.state.trace):
-            logger.critical(f'The component {self.state.name} is a copied definition, complete with TRACE section')
-            logger.critical(f'Now `TRACE COPY {ctx.Identifier()}` would add to the existing copied TRACE')
-            logger.critical(f'This is almost certainly not the intended behaviour, so you get only the new copy.')
-            self.state.trace = ()
         blocks = self.parent.get_component(str(ctx.Identifier())).trace
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
             blocks.append(self.visit(ctx.unparsed_block()))
+        self.state.trace = ()  # replaces what a copied definition has
         self.state.TRACE(*blocks)
 
     def visitComponent_define_parameters(self, ctx: Parser.Component_define_parametersContext):
@@ -142,21 +137,19 @@ class CompVisitor(McCompVisitor):
             self.state.dependency = flags if self.state.dependency is None else f'{self.state.dependency} {flags}'
 
     def visitDeclareBlock(self, ctx: Parser.DeclareBlockContext):
+        self.state.declare = ()  # replaces what a copied definition has
         self.state.DECLARE(self.visit(ctx.unparsed_block()))
 
     def visitDeclareBlockCopy(self, ctx: Parser.DeclareBlockCopyContext):
-        if len(self.state.declare):
-            logger.critical(f'The component {self.state.name} is a copied definition, complete with DECLARE section')
-            logger.critical(f'Now `DECLARE COPY {ctx.Identifier()}` would add to the existing copied DECLARE')
-            logger.critical(f'This is almost certainly not the intended behaviour, so you get only the new copy.')
-            self.state.declare = ()
         blocks = self.parent.get_component(str(ctx.Identifier())).declare
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
             blocks.append(self.visit(ctx.unparsed_block()))
+        self.state.declare = ()  # replaces what a copied definition has
         self.state.DECLARE(*blocks)
 
     def visitShareBlock(self, ctx: Parser.ShareBlockContext):
+        self.state.share = ()  # replaces what a copied definition has
         self.state.SHARE(self.visit(ctx.unparsed_block()))
 
     def visitShareBlockCopy(self, ctx: Parser.ShareBlockCopyContext):
@@ -164,69 +157,59 @@ class CompVisitor(McCompVisitor):
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
             blocks.append(self.visit(ctx.unparsed_block()))
+        self.state.share = ()  # replaces what a copied definition has
         self.state.SHARE(*blocks)
 
     def visitInitializeBlock(self, ctx: Parser.InitializeBlockContext):
+        self.state.initialize = ()  # replaces what a copied definition has
         self.state.INITIALIZE(self.visit(ctx.unparsed_block()))
 
     def visitInitializeBlockCopy(self, ctx: Parser.InitializeBlockCopyContext):
-        if len(self.state.initialize):
-            logger.critical(f'The component {self.state.name} is a copied definition, complete with INITIALIZE section')
-            logger.critical(f'Now `INITIALIZE COPY {ctx.Identifier()}` would add to the existing copied INITIALIZE')
-            logger.critical(f'This is almost certainly not the intended behaviour, so you get only the new copy.')
-            self.state.initialize = ()
         blocks = self.parent.get_component(str(ctx.Identifier())).initialize
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
             blocks.append(self.visit(ctx.unparsed_block()))
+        self.state.initialize = ()  # replaces what a copied definition has
         self.state.INITIALIZE(*blocks)
 
     def visitUservars(self, ctx: Parser.UservarsContext):
+        self.state.user = ()  # replaces what a copied definition has
         self.state.USERVARS(self.visit(ctx.unparsed_block()))
 
     def visitSaveBlock(self, ctx: Parser.SaveBlockContext):
+        self.state.save = ()  # replaces what a copied definition has
         self.state.SAVE(self.visit(ctx.unparsed_block()))
 
     def visitSaveBlockCopy(self, ctx: Parser.SaveBlockCopyContext):
-        if len(self.state.save):
-            logger.critical(f'The component {self.state.name} is a copied definition, complete with SAVE section')
-            logger.critical(f'Now `SAVE COPY {ctx.Identifier()}` would add to the existing copied SAVE')
-            logger.critical(f'This is almost certainly not the intended behaviour, so you get only the new copy.')
-            self.state.save = ()
         blocks = self.parent.get_component(str(ctx.Identifier())).save
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
             blocks.append(self.visit(ctx.unparsed_block()))
+        self.state.save = ()  # replaces what a copied definition has
         self.state.SAVE(*blocks)
 
     def visitFinallyBlock(self, ctx: Parser.FinallyBlockContext):
+        self.state.final = ()  # replaces what a copied definition has
         self.state.FINALLY(self.visit(ctx.unparsed_block()))
 
     def visitFinallyBlockCopy(self, ctx: Parser.FinallyBlockCopyContext):
-        if len(self.state.final):
-            logger.critical(f'The component {self.state.name} is a copied definition, complete with FINALLY section')
-            logger.critical(f'Now `FINALLY COPY {ctx.Identifier()}` would add to the existing copied FINALLY')
-            logger.critical(f'This is almost certainly not the intended behaviour, so you get only the new copy.')
-            self.state.final = ()
         blocks = self.parent.get_component(str(ctx.Identifier())).final
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
             blocks.append(self.visit(ctx.unparsed_block()))
+        self.state.final = ()  # replaces what a copied definition has
         self.state.FINALLY(*blocks)
 
     def visitDisplayBlock(self, ctx: Parser.DisplayBlockContext):
+        self.state.display = ()  # replaces what a copied definition has
         self.state.DISPLAY(self.visit(ctx.unparsed_block()))
 
     def visitDisplayBlockCopy(self, ctx: Parser.DisplayBlockCopyContext):
-        if len(self.state.display):
-            logger.critical(f'The component {self.state.name} is a copied definition, complete with DISPLAY section')
-            logger.critical(f'Now `DISPLAY COPY {ctx.Identifier()}` would add to the existing copied DISPLAY')
-            logger.critical(f'This is almost certainly not the intended behaviour, so you get only the new copy.')
-            self.state.display = ()
         blocks = self.parent.get_component(str(ctx.Identifier())).display
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
             blocks.append(self.visit(ctx.unparsed_block()))
+        self.state.display = ()  # replaces what a copied definition has
         self.state.DISPLAY(*blocks)
 
     def visitMetadata(self, ctx: Parser.MetadataContext):
-- 
2.43.0


From d62b72e6f13cfb7bf8b352c973a8fef9d525ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 071/104] fix: a copied component definition can restate a
 parameter, with its own default

---
 src/mccode_antlr/comp/visitor.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 576b625..588fe92 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -10,6 +10,7 @@ class CompVisitor(McCompVisitor):
         self.filename = filename
         self.state = Comp()
         self.instance_name = instance_name
+        self.inherited = {}  # parameters of a copied definition which are not stated again
 
     def visitProg(self, ctx: Parser.ProgContext):
         self.state = Comp()
@@ -30,6 +31,7 @@ class CompVisitor(McCompVisitor):
         copy_from_comp = self.parent.get_component(copy_from)
         # pull from that component ... deepcopy _just_ in case
         self.state = deepcopy(copy_from_comp)
+        self.inherited = {kind: {p.name for p in getattr(self.state, kind)} for kind in ('define', 'setting', 'output')}
         # update the name to match what we're going to call this component
         self.state.name = new_name
         # add parameters, overwrite all provided details
@@ -53,17 +55,26 @@ class CompVisitor(McCompVisitor):
         self.state.trace = ()  # replaces what a copied definition has
         self.state.TRACE(*blocks)
 
+    def add_parameter(self, kind: str, parameter: ComponentParameter):
+        """Add a parameter, or restate one of a copied definition in its place"""
+        if parameter.name in self.inherited.get(kind, ()):
+            self.inherited[kind].remove(parameter.name)
+            present = getattr(self.state, kind)
+            setattr(self.state, kind, tuple(parameter if p.name == parameter.name else p for p in present))
+        else:
+            getattr(self.state, f'add_{kind}')(parameter)
+
     def visitComponent_define_parameters(self, ctx: Parser.Component_define_parametersContext):
         for parameter in self.visit(ctx.component_parameters()):
-            self.state.add_define(parameter)
+            self.add_parameter('define', parameter)
 
     def visitComponent_set_parameters(self, ctx: Parser.Component_set_parametersContext):
         for parameter in self.visit(ctx.component_parameters()):
-            self.state.add_setting(parameter)
+            self.add_parameter('setting', parameter)
 
     def visitComponent_out_parameters(self, ctx: Parser.Component_out_parametersContext):
         for parameter in self.visit(ctx.component_parameters()):
-            self.state.add_output(parameter)
+            self.add_parameter('output', parameter)
 
     def visitComponent_parameters(self, ctx: Parser.Component_parametersContext):
         return [self.visit(x) for x in ctx.component_parameter()]
-- 
2.43.0


From 9f22b044b90f3e160d1ef3f75c7f07a8b3debfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 072/104] fix: the name of a component file is not its category

---
 src/mccode_antlr/reader/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index c09f392..7abeec4 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -125,7 +125,8 @@ class Reader:
             fullname = self.fullname(name, ext='.comp', strict=True)
             fullname = fullname if isinstance(fullname, Path) else Path(fullname)
             # if fullname is an absolute path, it comes from a local repository -- so we don't know what to do
-            res.category = 'UNKNOWN' if fullname.is_absolute() else fullname.parts[0]
+            # and a file which is not in any directory does not tell either
+            res.category = 'UNKNOWN' if fullname.is_absolute() or len(fullname.parts) < 2 else fullname.parts[0]
         self.components[name] = res
 
     def get_component(self, name: str, current_instance_name=None):
-- 
2.43.0


From 983b46b421c8ea9cae7512be2285275143a7906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 073/104] fix: data files can have blank lines, and labels of
 blocks are no header entries

---
 src/mccode_antlr/loader/datfile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 7fa3107..6cdf57c 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -25,12 +25,15 @@ class DatFileCommon:
         with source.open('r') as file:
             lines = file.readlines()
 
-        header = [x.strip(' #\n') for x in filter(lambda x: x[0] == '#', lines)]
+        lines = [x.strip() for x in lines if x.strip()]
+        header = [x.lstrip('#').strip() for x in filter(lambda x: x[0] == '#', lines)]
+        # the labels of the blocks of two-dimensional data name the file, which is known already
+        header = [x for x in header if not (x.endswith(':') and x.startswith(('Data [', 'Errors [', 'Events [')))]
         meta = {k.strip(): v.strip() for k, v in
                 [x.split(':', 1) for x in filter(lambda x: not x.startswith('Param'), header)]}
         parm = {k.strip(): v.strip() for k, v in
                 [x.split(':', 1)[1].split('=', 1) for x in filter(lambda x: x.startswith('Param'), header)]}
-        var = meta.get('variables', '').split(' ')
+        var = meta.get('variables', '').split()
         data = array([[float(x) for x in line.strip().split()] for line in filter(lambda x: x[0] != '#', lines)])
         return cls(source, meta, parm, var, data)
 
-- 
2.43.0


From d0ae9b043971b80cfdc6521e4ada282ff07c7c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 074/104] fix: one-dimensional data files with as many bins as
 variables were taken for transposed

---
 src/mccode_antlr/loader/datfile.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 6cdf57c..388264a 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -143,13 +143,11 @@ class DatFile1D(DatFileCommon):
     def __post_init__(self):
         nx = int(self.metadata['type'].split('(', 1)[1].strip(')'))
         nv = len(self.variables)
-        if self.data.shape == (nv, nx):
-            # shortcut in case we're already in the right shape (e.g., from __add__)
-            return
-        if self.data.shape[0] != nx or self.data.shape[1] != nv:
+        if self.data.shape == (nx, nv):
+            # as in a file, but we always want the variables along the first dimension:
+            self.data = self.data.transpose((1, 0))
+        elif self.data.shape != (nv, nx):
             raise RuntimeError(f'Unexpected data shape {self.data.shape} for metadata specifying {nx=} and {nv=}')
-        # we always want the variables along the first dimension:
-        self.data = self.data.transpose((1, 0))
 
     def dim_metadata(self) -> list[dict]:
         lower_limit, upper_limit = [float(x) for x in self['xlimits'].split()]
@@ -182,7 +180,7 @@ class DatFile1D(DatFileCommon):
 
     def __add__(self, other):
         both = super().__add__(other)
-        return DatFile1D(both.source, both.metadata, both.parameters, both.variables, both.data)
+        return DatFile1D(both.source, both.metadata, both.parameters, both.variables, both.data.transpose((1, 0)))
 
 
 @dataclass
-- 
2.43.0


From 383fc2a11d4cbc3bbfa2b7583adaa63a02d4ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 075/104] fix: results without dimensions can be combined

---
 src/mccode_antlr/loader/datfile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 388264a..2838ba3 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -125,7 +125,7 @@ class DatFile0D(DatFileCommon):
         return first, second
 
     def safe_to_combine(self, other):
-        if not isinstance(other, DatFile1D):
+        if not isinstance(other, DatFile0D):
             return False
         if self.variables != other.variables:
             return False
@@ -135,7 +135,7 @@ class DatFile0D(DatFileCommon):
 
     def __add__(self, other):
         both = super().__add__(other)
-        return DatFile1D(both.source, both.metadata, both.parameters, both.variables, both.data)
+        return DatFile0D(both.source, both.metadata, both.parameters, both.variables, both.data)
 
 
 @dataclass
@@ -280,11 +280,11 @@ def combine_scan_lists(a: list, b: list):
 def combine_scan_data(a: ndarray, b: ndarray):
     if a.shape != b.shape:
         raise RuntimeError(f'Incompatible shapes {a.shape} and {b.shape}')
-    if a.ndim == 2:
+    if a.ndim in (1, 2):
         from copy import deepcopy
         # variables are _always_ (?) (..., I, I_err, N)
         c = deepcopy(a)
-        c[-3:, :] = a[-3:, :] + b[-3:, :]
+        c[-3:, ...] = a[-3:, ...] + b[-3:, ...]
         return c
     elif a.ndim == 3:
         # but 3-D _only_ contains (I, I_err, N)
-- 
2.43.0


From 2e44d5c8528cef25105716230ad1c9f042dd674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 076/104] fix: errors of combined results add in quadrature

---
 src/mccode_antlr/loader/datfile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 2838ba3..da84d0f 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -278,6 +278,7 @@ def combine_scan_lists(a: list, b: list):
 
 
 def combine_scan_data(a: ndarray, b: ndarray):
+    from numpy import hypot
     if a.shape != b.shape:
         raise RuntimeError(f'Incompatible shapes {a.shape} and {b.shape}')
     if a.ndim in (1, 2):
@@ -285,10 +286,14 @@ def combine_scan_data(a: ndarray, b: ndarray):
         # variables are _always_ (?) (..., I, I_err, N)
         c = deepcopy(a)
         c[-3:, ...] = a[-3:, ...] + b[-3:, ...]
+        # the errors of independent runs
+        c[-2, ...] = hypot(a[-2, ...], b[-2, ...])
         return c
     elif a.ndim == 3:
         # but 3-D _only_ contains (I, I_err, N)
-        return a + b
+        c = a + b
+        c[-2, ...] = hypot(a[-2, ...], b[-2, ...])
+        return c
     else:
         raise RuntimeError(f'Unexpected number of dimensions: {a.ndim}')
 
-- 
2.43.0


From 3ad904e9c6caa7847bc6dbf9898fc51ff26ab4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 077/104] fix: header entries are combined by their whole name,
 and parameters never

---
 src/mccode_antlr/loader/datfile.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index da84d0f..ae347aa 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -82,7 +82,9 @@ class DatFileCommon:
         if not self.safe_to_combine(other):
             raise RuntimeError('Cannot combine these two dat files')
         metadata = combine_scan_dicts(self.metadata, other.metadata)
-        parameters = combine_scan_dicts(self.parameters, other.parameters)
+        if self.parameters != other.parameters:
+            raise RuntimeError(f'Incompatible parameters {self.parameters} and {other.parameters}')
+        parameters = dict(self.parameters)
         variables = combine_scan_lists(self.variables, other.variables)
         data = combine_scan_data(self.data, other.data)
         return DatFileCommon(Path(), metadata, parameters, variables, data)
@@ -256,12 +258,12 @@ def combine_scan_dicts(a: dict, b: dict):
     special_concatenate = 'Directory', 'filename', 'Date', 'Seed'
     special_ignore = 'signal', 'statistics', 'values'
     for k, v in b.items():
-        if any(s in k for s in special_add):
+        if k in c and k in special_add:
             c[k] = int(c[k]) + int(v)
-        elif any(s in k for s in special_concatenate):
-            if v not in c[k]:
+        elif k in c and k in special_concatenate:
+            if f' {v} ' not in f' {c[k]} ':
                 c[k] = f'{c[k]} {v}'
-        elif any(s in k for s in special_ignore):
+        elif k in special_ignore:
             pass
         elif k in c:
             if c[k] != v:
-- 
2.43.0


From 3acaaf7c3768a29f1bd573b8d3d81939a46c75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 078/104] fix: written data files have the header entries there
 are

---
 src/mccode_antlr/loader/datfile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index ae347aa..6dad6a5 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -51,11 +51,13 @@ class DatFileCommon:
         first, second = self.parts()
         with sink.open('w') as file:
             for item in first:
-                print(f'# {item}: {self.metadata[item]}', file=file)
+                if item in self.metadata:
+                    print(f'# {item}: {self.metadata[item]}', file=file)
             for param in self.parameters:
                 print(f'# Param: {param}={self.parameters[param]}', file=file)
-            for item in second:
-                print(f'# {item}: {self.metadata[item]}', file=file)
+            for item in [x for x in self.metadata if x not in first and x not in second] + list(second):
+                if item in self.metadata:
+                    print(f'# {item}: {self.metadata[item]}', file=file)
             self.print_data(file)
 
     def __getitem__(self, item):
-- 
2.43.0


From 75e1968fd3b053272a93eff04f270fb1ccea6694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 079/104] fix: functions, what is local in them, and tags are
 no variables

---
 src/mccode_antlr/translators/c_listener.py | 25 +++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index bacc6ef..635279f 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -65,6 +65,10 @@ class CFuncPointer:
     def name(self) -> str:
         return self.declare.name
 
+    @property
+    def is_pointer_to_array(self) -> bool:
+        return self.args is not None and self.args.startswith('[')
+
     def copy(self, suffix: str | None = None) -> TCFuncPointer:
         return CFuncPointer(
             declare=self.declare.copy(suffix=suffix),
@@ -120,6 +124,13 @@ class CDeclarator:
         # jump through the CFuncPointer to its CDeclarator
         return isinstance(self.declare, CFuncPointer) and self.declare.declare.is_array
 
+    @property
+    def is_function(self) -> bool:
+        """Not a pointer to a function, but a function"""
+        if isinstance(self.declare, str):
+            return '(' in self.declare
+        return self.declare.args is not None and not self.declare.is_pointer_to_array and not self.declare.declare.is_pointer
+
     @property
     def name(self) -> str:
         return self.declare if isinstance(self.declare, str) else self.declare.name
@@ -250,14 +261,26 @@ class DeclaresCVisitor(CVisitor):
             self.typedefs.append(alias)
         elif len(inits):
             for decl, init in inits:
+                if decl.is_function:
+                    continue
                 decl.dtype = ' '.join(specs)
                 decl.init = init
                 self.declares.append(decl)
-        elif len(specs) > 1:
+        elif len(specs) > 1 and self.names_type(ctx.declarationSpecifiers().declarationSpecifier()[-1]):
+            # the name of the variable is parsed like the name of a type
             decl = CDeclarator(pointer=None, declare=specs[-1], extensions=[])
             decl.dtype = ' '.join(specs[:-1])
             self.declares.append(decl)
 
+    @staticmethod
+    def names_type(ctx:CParser.DeclarationSpecifierContext):
+        specifier = ctx.typeSpecifier()
+        return specifier is not None and specifier.typedefName() is not None
+
+    def visitFunctionDefinition(self, ctx:CParser.FunctionDefinitionContext):
+        # what is declared in a function is local to it
+        self.debug(f'FunctionDefinition {literal_string(ctx)}')
+
     # Five declaration specifiers
     def visitStorageClassSpecifier(self, ctx:CParser.StorageClassSpecifierContext):
         self.debug(f'StorageClassSpecifier {literal_string(ctx)}')
-- 
2.43.0


From bf4713516c4945dc76a3a8dcd19cb1e4a39768e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 080/104] fix: sizes and arguments of declared variables which
 contain the name, and pointers to arrays

---
 src/mccode_antlr/translators/c_listener.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 635279f..66e4575 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -87,7 +87,9 @@ class CFuncPointer:
 
     def string(self, dec_str):
         f = f'({self.modifiers} {dec_str})' if self.modifiers else f'({dec_str})'
-        return f'{f}({self.args})' if self.args else f'{f}()'
+        if self.args is None or self.is_pointer_to_array:
+            return f'{f}{self.args or ""}'
+        return f'{f}({self.args})'
 
     def __str__(self):
         return self.string(str(self.declare))
@@ -381,10 +383,11 @@ class DeclaresCVisitor(CVisitor):
             return literal_string(ctx)
 
         dd = ctx.directDeclarator()
-        after_dd_str = literal_string(ctx).replace(literal_string(dd), '')
+        after_dd_str = literal_string(ctx)[len(literal_string(dd)):].lstrip()
         dec = self.visit(dd)
         if isinstance(dec, CFuncPointer):
-            dec.args = after_dd_str.strip('()')
+            # the sizes of an array which is pointed to follow each other
+            dec.args = (dec.args or '') + after_dd_str if after_dd_str.startswith('[') else after_dd_str[1:-1]
             return dec
         return dec + after_dd_str
 
-- 
2.43.0


From e1d684fabf090ec26a0a1b00f42c514e400412cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 081/104] fix: the name which a typedef defines is the one
 which is declared

---
 src/mccode_antlr/translators/c_listener.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 66e4575..a84c691 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -255,12 +255,11 @@ class DeclaresCVisitor(CVisitor):
             #   typedef typeInformation aliasIdentifier;
             if specs[0] != 'typedef':
                 self.debug(f"Expected typedef ... identifier; not\n{literal_string(ctx)}")
-            if len(inits):
-                self.debug(f'Expected no initializer with typedef, but found {inits}')
-            alias = specs[-1]
-            if alias in self.typedefs:
-                self.info(f'Re-definition of typedef alias {alias}?')
-            self.typedefs.append(alias)
+            # a simple alias is parsed like the name of a type, pointers, arrays and functions are declarators
+            for alias in [decl.name.split('(')[0] for decl, _ in inits] if len(inits) else [specs[-1]]:
+                if alias in self.typedefs:
+                    self.info(f'Re-definition of typedef alias {alias}?')
+                self.typedefs.append(alias)
         elif len(inits):
             for decl, init in inits:
                 if decl.is_function:
-- 
2.43.0


From d4b4b325c3f37454c19d62d4c032db141cbe2696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 082/104] fix: declarations which differ in size or initial
 value are different

---
 src/mccode_antlr/translators/c_listener.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index a84c691..0f6ce55 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -47,11 +47,6 @@ def make_error_listener(super_class, source: str, pre=5, post=2):
 TCDeclarator = TypeVar('TCDeclarator', bound='CDeclarator')
 TCFuncPointer = TypeVar('TCFuncPointer', bound='CFuncPointer')
 
-def not_both_None_or_not_equal(a, b):
-    if (a is None and b is not None) or (a is not None and b is None):
-        return False
-    return a is not None and b is not None and a != b
-
 def same_type(a, b):
     return type(a) == type(b)
 
@@ -79,9 +74,7 @@ class CFuncPointer:
     def __eq__(self, other: TCFuncPointer) -> bool:
         if not isinstance(other, CFuncPointer):
             raise ValueError('Type mismatch')
-        if not_both_None_or_not_equal(self.args, other.args):
-            return False
-        if not_both_None_or_not_equal(self.modifiers, other.modifiers):
+        if (self.args, self.modifiers) != (other.args, other.modifiers):
             return False
         return self.declare == other.declare
 
@@ -162,7 +155,7 @@ class CDeclarator:
                 return False
         for a, b in zip((self.pointer, self.elements, self.dtype, self.init),
                         (other.pointer, other.elements, other.dtype, other.init)):
-            if not_both_None_or_not_equal(a, b):
+            if a != b:
                 return False
         return same_type(self.declare, other.declare) and self.declare == other.declare
 
-- 
2.43.0


From 2e1ec63c80521876f07da3ad3afaa2142707d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 083/104] fix: commas in texts, calls and at the end are no
 elements of an initializer

---
 src/mccode_antlr/translators/c_listener.py | 30 ++++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 0f6ce55..d70b4db 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -194,6 +194,21 @@ class CDeclarator:
         return str(self)
 
 
+def initializer_items(items: str) -> list[str]:
+    """Separate the items of an initializer list at its commas, but not at those in texts, calls or inner lists"""
+    import re
+    found, depth = [''], 0
+    for token in re.findall(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|.', items, re.DOTALL):
+        depth += (token in '([{') - (token in ')]}')
+        if token == ',' and depth == 0:
+            found.append('')
+        else:
+            found[-1] += token
+    found = [item.strip() for item in found]
+    # a comma can follow the last item
+    return found if found[-1] else found[:-1]
+
+
 def extract_initializer_size(init: str) -> tuple[int,...]:
     """Assuming that the provided initializer string is for an array, possibly
     of more statically sized arrays, and that it has been written correctly,
@@ -205,17 +220,16 @@ def extract_initializer_size(init: str) -> tuple[int,...]:
     >>> extract_initializer_size('{{{0}, {1}}, {{2}, {3}}, {{4}, {5}}, {{6}, {7}}}')
     (4, 2, 1)
     """
-    import re
     if init.lstrip().startswith('"'):
         # a string: the compiler knows how many characters are in it
         return (f'sizeof({init})',)
-    size = []
-    inner = re.compile('{([^{}]*)}')
-    x = init
-    while len(y:=inner.findall(x)):
-        size.append(len(y[0].split(',')))
-        x = inner.sub('_', x)
-    return tuple(reversed(size))
+    init = init.strip()
+    if not init.startswith('{'):
+        return ()
+    items = initializer_items(init[1:-1])
+    inner = [extract_initializer_size(item) for item in items if item.startswith('{')]
+    depth = max([len(size) for size in inner], default=0)
+    return (len(items),) + tuple(max(size[i] for size in inner if len(size) > i) for i in range(depth))
 
 
 class DeclaresCVisitor(CVisitor):
-- 
2.43.0


From 1d2535adef4271b7891b8cc891d934cc7ac520e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 084/104] fix: comments are no part of what is declared

---
 src/mccode_antlr/translators/c_listener.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index d70b4db..1cedca2 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -398,13 +398,22 @@ class DeclaresCVisitor(CVisitor):
         return dec + after_dd_str
 
 
+def without_comments(block: str) -> str:
+    """Every comment is like a space, or like the ends of the lines in it"""
+    import re
+    def replace(found):
+        text = found.group()
+        return text if text[0] in '"\'' else (' ' + '\n' * text.count('\n'))
+    return re.sub(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|/\*.*?\*/|//[^\n]*', replace, block, flags=re.DOTALL)
+
+
 def extract_c_declared_variables_and_defined_types(
         block: str, user_types: list = None, verbose=False
 ) -> tuple[list[CDeclarator], list[str]]:
     from antlr4 import InputStream, CommonTokenStream
     from antlr4.error.ErrorListener import ErrorListener
     from ..grammar import CLexer
-    stream = InputStream(block)
+    stream = InputStream(without_comments(block))
     lexer = CLexer(stream)
     tokens = CommonTokenStream(lexer)
     parser = CParser(tokens)
-- 
2.43.0


From 95138167a35531cc624a27a70197e333433ed206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 085/104] fix: a function which gives a pointer to a function
 is no variable

---
 src/mccode_antlr/translators/c_listener.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 1cedca2..28f8ee1 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -124,6 +124,8 @@ class CDeclarator:
         """Not a pointer to a function, but a function"""
         if isinstance(self.declare, str):
             return '(' in self.declare
+        if self.declare.declare.is_function:
+            return True
         return self.declare.args is not None and not self.declare.is_pointer_to_array and not self.declare.declare.is_pointer
 
     @property
-- 
2.43.0


From 03ef033ecc1f0d73fdb22a5b920969bb8eec5e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 086/104] fix: sizes of arrays which contain brackets, or are
 octal

---
 src/mccode_antlr/translators/c_listener.py | 29 ++++++++++++++--------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 28f8ee1..9222717 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -196,6 +196,19 @@ class CDeclarator:
         return str(self)
 
 
+def array_sizes(text: str) -> tuple[str, ...]:
+    """The sizes in text like [1][n[2]], which can themselves contain brackets"""
+    sizes, depth = [], 0
+    for char in text:
+        depth -= char == ']'
+        if depth:
+            sizes[-1] += char
+        elif char == '[':
+            sizes.append('')
+        depth += char == '['
+    return tuple(size.strip() for size in sizes)
+
+
 def initializer_items(items: str) -> list[str]:
     """Separate the items of an initializer list at its commas, but not at those in texts, calls or inner lists"""
     import re
@@ -365,17 +378,13 @@ class DeclaresCVisitor(CVisitor):
             pass
         elif all(x in dec for x in ('[', ']')):
             dec, post = dec.split('[', 1)
-            nums = tuple()
-            while ']' in post:
-                num, post = post.split(']', 1)
-                nums += (num,)
-                if '[' in post:
-                    _, post = post.split('[', 1)
-            try:
+            nums = array_sizes('[' + post)
+            # numbers with leading zeros are octal, and left to the compiler
+            if all(n == '' or (n.isdecimal() and str(int(n)) == n) for n in nums):
                 elements = tuple(int(n) if len(n) else 0 for n in nums)
-            except ValueError as er:
-                logger.info(f"Could not convert an integer from {nums} due to {er}")
-                elements = nums
+            else:
+                logger.info(f"Could not convert an integer from {nums}")
+                elements = tuple(n or 0 for n in nums)
         return CDeclarator(pointer=ptr, declare=dec, extensions=extensions, elements=elements)
 
     def visitPointer(self, ctx:CParser.PointerContext):
-- 
2.43.0


From cd1e8e4e18a1c2959e328f75499188ff949870f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 087/104] fix: arrays with three sizes, the first of them left
 to the initializer

---
 src/mccode_antlr/translators/c_listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 9222717..cc7cc62 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -182,7 +182,7 @@ class CDeclarator:
         dims = len(self.elements) if self.elements else 0
         mal = max_array_length if isinstance(max_array_length, tuple) else (max_array_length,)
         if len(mal) < dims:
-            mal *= dims // len(mal)
+            mal += (max_array_length if isinstance(max_array_length, int) else 0,) * (dims - len(mal))
         no = self.elements if self.elements else mal
         if not isinstance(no, tuple):
             raise RuntimeError(f'{no} should be a tuple but is a {type(no)}')
-- 
2.43.0


From 7ce57adaa21f8b34981b4671b7ca02ac5f4a6f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 088/104] fix: declared functions are extracted, but are no
 variables

---
 src/mccode_antlr/translators/c_listener.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index cc7cc62..eb068c0 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -284,8 +284,6 @@ class DeclaresCVisitor(CVisitor):
                 self.typedefs.append(alias)
         elif len(inits):
             for decl, init in inits:
-                if decl.is_function:
-                    continue
                 decl.dtype = ' '.join(specs)
                 decl.init = init
                 self.declares.append(decl)
@@ -438,8 +436,8 @@ def extract_c_declared_variables_and_defined_types(
 def extract_c_declared_variables(
         block: str, user_types: list = None, verbose=False
 ) -> list[CDeclarator]:
-    variables, _ = extract_c_declared_variables_and_defined_types(block, user_types, verbose=verbose)
-    return variables
+    declares, _ = extract_c_declared_variables_and_defined_types(block, user_types, verbose=verbose)
+    return [x for x in declares if not x.is_function]
 
 def extract_c_defined_types(
         block: str, user_types: list = None, verbose=False
-- 
2.43.0


From bc2bfdfa99bdd20b69b9489cb58cdb95a594ebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 089/104] fix: the absolute value of a number is fabs in C

---
 src/mccode_antlr/common/expression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 1f41785..fe9a7a5 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -650,7 +650,9 @@ class UnaryOp(Op):
         if any(x == self.op for x in '+-'):
             vstr = self._operand(f, self.value, _BINDS['*'])
             return f'{self.op}({vstr})' if vstr.startswith(('+', '-')) else f'{self.op}{vstr}'
-        return f'{self.op}({self._arguments(f, self.value)})'
+        # the absolute value of int arguments only is abs in C
+        name = 'fabs' if 'C' == self.style and 'abs' == self.op else self.op
+        return f'{name}({self._arguments(f, self.value)})'
 
     def __neg__(self):
         if self.op == '-':
-- 
2.43.0


From e67ed31404218b58e6b5d24f30a348dfc4d2bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 090/104] fix: flags keep the order in which they are stated

---
 src/mccode_antlr/instr/instr.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index a514de2..575cce5 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -291,14 +291,15 @@ class Instr:
         return flag
 
     @property
-    def unique_flags(self) -> set[str]:
+    def unique_flags(self) -> list[str]:
         # Each 'flag' in self.flags is from a single instrument component DEPENDENCY,
         # and might contain duplicates: If we accept that white space differences
         # matter, we can deduplicate the strings 'easily'
-        uf = set(self.flags)
+        flags = list(self.flags)
         if any(inst.cpu for inst in self.components):
-            uf.add('-DFUNNEL')
-        return uf
+            flags.append('-DFUNNEL')
+        # the order can matter to the linker
+        return list(dict.fromkeys(flags))
 
     def decoded_flags(self) -> list[str]:
         # The dependency strings are allowed to contain any of
-- 
2.43.0


From c8689efba1a826f3b912e7f6ff51d065689dbffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 091/104] fix: configured flags replace their keyword as they
 are

---
 src/mccode_antlr/instr/instr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 575cce5..800ab92 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -271,21 +271,21 @@ class Instr:
 
     def _replace_keywords(self, flag):
         from mccode_antlr.config import config
-        from re import sub, findall
+        from re import findall
         if '@NEXUSFLAGS@' in flag:
-            flag = sub(r'@NEXUSFLAGS@', config['flags']['nexus'].as_str_expanded(), flag)
+            flag = flag.replace('@NEXUSFLAGS@', config['flags']['nexus'].as_str_expanded())
         if '@MCCODE_LIB@' in flag:
             print(f'The instrument {self.name} uses @MCCODE_LIB@ dependencies which no longer work.')
             print('Expect problems at compilation.')
-            flag = sub('@MCCODE_LIB@', '.', flag)
+            flag = flag.replace('@MCCODE_LIB@', '.')
         general_re = r'@(\w+)@'
         for replace in findall(general_re, flag):
             # Is this replacement something like XXXFLAGS?
             if replace.lower().endswith('flags') and replace.lower()[:-5] in config['flags']:
-                flag = sub(f'@{replace}@', config['flags'][replace.lower()[:-5]].as_str_expanded(), flag)
+                flag = flag.replace(f'@{replace}@', config['flags'][replace.lower()[:-5]].as_str_expanded())
             elif replace.lower().endswith('flags'):
                 # Punt, and just replace with the lowercase version of the keyword -- hopefully this was intended
-                flag = sub(f'@{replace}@', f'-l{replace.lower()[:-5]}', flag)
+                flag = flag.replace(f'@{replace}@', f'-l{replace.lower()[:-5]}')
             else:
                 logger.warning(f'Unknown keyword @{replace}@ in dependency string')
         return flag
-- 
2.43.0


From 728e231585e70a27c5eb20cc4bb2dfc076d20061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 092/104] fix: a quote at the end of the flags of a component

---
 src/mccode_antlr/comp/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 588fe92..84ad66c 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -142,7 +142,7 @@ class CompVisitor(McCompVisitor):
     def visitDependency(self, ctx: Parser.DependencyContext):
         if ctx.StringLiteral() is not None:
             # the flags are the literal string without its quotes:
-            flags = str(ctx.StringLiteral()).strip('"')
+            flags = str(ctx.StringLiteral())[1:-1]
             self.parent.add_c_flags(flags)
             # a copied definition needs the flags of the original, too
             self.state.dependency = flags if self.state.dependency is None else f'{self.state.dependency} {flags}'
-- 
2.43.0


From deb612ba02eb7d0e347283d4cdd2bca58e34ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 093/104] fix: errors of combined detectors add in quadrature

---
 src/mccode_antlr/loader/simfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index 5e77c39..af48ce4 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -313,7 +313,7 @@ class SimFileData:
         # The values line is always "{float} {float} {int}" which _I think_ is <intensity>, <error>, and event count
         s_intensity, s_error, s_counts = split_values(self.values)
         o_intensity, o_error, o_counts = split_values(other.values)
-        out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error + o_error)} {s_counts + o_counts}"
+        out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error * o_error)} {s_counts + o_counts}"
 
         # The signal line is always? "None" or "Min={float}; Max={float}; Mean={float};"
         # we can combine min and max, but not mean (without knowing the number of points)
-- 
2.43.0


From 9c81b5a65bf4a240a566cf3f7341b48c37cec5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 094/104] fix: combine detectors which recorded nothing

---
 src/mccode_antlr/loader/simfile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index af48ce4..b8f52be 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -313,6 +313,8 @@ class SimFileData:
         # The values line is always "{float} {float} {int}" which _I think_ is <intensity>, <error>, and event count
         s_intensity, s_error, s_counts = split_values(self.values)
         o_intensity, o_error, o_counts = split_values(other.values)
+        # without any event the means are not known
+        counts = s_counts + o_counts or 1
         out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error * o_error)} {s_counts + o_counts}"
 
         # The signal line is always? "None" or "Min={float}; Max={float}; Mean={float};"
@@ -322,7 +324,7 @@ class SimFileData:
         else:
             s_min, s_max, s_mean = split_signal(self.signal)
             o_min, o_max, o_mean = split_signal(other.signal)
-            mean_estimate = (s_mean * s_counts + o_mean * o_counts)/(s_counts + o_counts)
+            mean_estimate = (s_mean * s_counts + o_mean * o_counts) / counts
             out.signal = f"Min={min(s_min, o_min)}; Max={max(s_max, o_max)}; Mean={mean_estimate};"
 
         # Statistics: one of "None", "X0={float}; dX={float};" or "X0={float}; dX={float}; Y0={float}; dY={float};"
@@ -337,11 +339,11 @@ class SimFileData:
             for d in ('X', 'Y'):
                 d0, dd = f'{d}0', f'd{d}'
                 if d0 in s_stats and d0 in o_stats:
-                    stats[d0] = (s_stats[d0] * s_counts + o_stats[d0] * o_counts)/(s_counts + o_counts)
+                    stats[d0] = (s_stats[d0] * s_counts + o_stats[d0] * o_counts) / counts
                 if dd in s_stats and dd in o_stats:
                     sd = s_stats[dd] * s_counts
                     od = o_stats[dd] * o_counts
-                    stats[dd] = sqrt(sd * sd + od * od) / (s_counts + o_counts)
+                    stats[dd] = sqrt(sd * sd + od * od) / counts
             out.statistics = ' '.join([f"{k}={stats[k]};" for k in ['X0', 'dX', 'Y0', 'dY'] if k in stats])
         return out
 
-- 
2.43.0


From c66e2c491101f1cb3803963301b6c949d95c1f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 095/104] fix: simulations with different run parameters are no
 repeats

---
 src/mccode_antlr/loader/simfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index b8f52be..fa2885b 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -180,7 +180,7 @@ class SimFileSimulation:
         return other.name == self.name and other.Format == self.Format and other.URL == self.URL and \
             other.Creator == self.Creator and other.Instrument == self.Instrument and \
             other.Trace == self.Trace and other.Gravitation == self.Gravitation and \
-            other.Directory == self.Directory and all(p in self.Params for p in other.Params)
+            other.Directory == self.Directory and set(other.Params) == set(self.Params)
 
     def combine(self, other):
         from copy import deepcopy
-- 
2.43.0


From bd7ed4b0a5f95aabddc54fc330062b74dacabd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 096/104] fix: name the translator which embeds the source

---
 src/mccode_antlr/translators/c_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index be11255..b87d3e3 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -281,7 +281,7 @@ def header_post_runtime(source, runtime: dict, config: dict, include_path):
                 return escape_str_for_c(file.read())
         message = f"Instrument {source.name} source code "
         message += f"from {escape_str_for_c(source.source)} is not embedded in this executable.\\n"
-        message += f"Use --source option when running {config.get('flavor')}"
+        message += f"Use --source option when running {config.get('flavor', runtime.get('name'))}"
         return message
 
     main_file_string = 'int main(int argc, char *argv[]){return mccode_main(argc, argv);}'
-- 
2.43.0


From 2bb709cd45f6b2c4e96847a2584197f03fa549b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 097/104] fix: the cache command stays within the cache

---
 src/mccode_antlr/cli/management.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 40df507..cc5ab80 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -97,13 +97,22 @@ def cache_path():
     return os_cache(f'mccode_antlr')
 
 
-def cache_remove(name, version, force):
-    from shutil import rmtree
+def cache_entry(*names):
+    """The folder of all caches, of one cache or of one of its versions"""
+    from pathlib import Path
     path = cache_path()
-    if name is not None:
+    for name in names:
+        if name is None:
+            continue
+        if name == '..' or Path(name).name != name:
+            raise ValueError(f'{name!r} is not the name of a cache or version')
         path = path.joinpath(name)
-    if version is not None:
-        path = path.joinpath(version)
+    return path
+
+
+def cache_remove(name, version, force):
+    from shutil import rmtree
+    path = cache_entry(name, version)
     if not force:
         response = input(f'Remove {path} and all contents? [yN] ')
         if 'yes' == response.lower() or 'y' == response.lower():
@@ -113,9 +122,7 @@ def cache_remove(name, version, force):
 
 
 def cache_list(name, long):
-    path = cache_path()
-    if name is not None:
-        path = path.joinpath(name)
+    path = cache_entry(name)
     dirs = sorted([d for d in path.iterdir() if d.is_dir()], key=lambda x: x.name)
     dstr = '\n'.join(f'  {d if long else d.name}' for d in dirs)
     n = len(dirs)
-- 
2.43.0


From 16f00f7035d0cf5c35d06e1534ca6bd24e62c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 098/104] fix: config list selects by its regular expression

---
 src/mccode_antlr/cli/management.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index cc5ab80..eb8b642 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -8,10 +8,9 @@ def config_dump(config):
 
 
 def config_list(regex):
-    from pathlib import Path
+    import re
     from mccode_antlr.config import config as c
-    config_dir = Path(c.config_dir())
-    d = {k: c[k].get() for k in list(c)}
+    d = {k: c[k].get() for k in list(c) if regex is None or re.search(regex, k)}
     print(config_dump(d))
 
 
-- 
2.43.0


From 0c421e04307b95f2a2f4025d3ea61d6f3cf51fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 099/104] fix: the whole configuration is that of all its
 sources

---
 src/mccode_antlr/cli/management.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index eb8b642..5f6eeda 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -7,10 +7,19 @@ def config_dump(config):
     return dump(config)
 
 
+def config_value(view):
+    """A value or, merged from all sources, a group of values"""
+    from confuse import ConfigTypeError
+    try:
+        return view.flatten()
+    except ConfigTypeError:
+        return view.get()
+
+
 def config_list(regex):
     import re
     from mccode_antlr.config import config as c
-    d = {k: c[k].get() for k in list(c) if regex is None or re.search(regex, k)}
+    d = {k: config_value(c[k]) for k in list(c) if regex is None or re.search(regex, k)}
     print(config_dump(d))
 
 
@@ -29,7 +38,7 @@ def config_get(key, verbose):
                 return
             else:
                 return
-    d = c.get()
+    d = config_value(c)
     if key:
         d = {key: d}
     print(config_dump(d))
@@ -55,7 +64,7 @@ def config_save(path, verbose):
     from pathlib import Path
     from mccode_antlr.config import config as c
     config_dir = Path(path or c.config_dir())
-    d = {k: c[k].get() for k in list(c)}
+    d = {k: config_value(c[k]) for k in list(c)}
     config_file = config_dir.joinpath('config.yaml')
     with config_file.open('w') as file:
         file.write(config_dump(d))
-- 
2.43.0


From 63e68cd1e577ec2369408149a851df1d86232bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:05 +0000
Subject: [PATCH 100/104] fix: the runtime library is configured for the
 flavour of the program

---
 src/mccode_antlr/translators/target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index cc98ee7..51f440e 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -92,7 +92,7 @@ class TargetVisitor:
         if len(reg) != 1:
             raise RuntimeError(f"Expected exactly one registry for file {filename}")
         # updates mccode_antlr.config.config
-        registry_defaults(reg[0], [reg[0].name])
+        registry_defaults(reg[0], [flavor])
 
         def replacement(match) -> str:
             name = match.group(1).lower()
-- 
2.43.0


From 6315767e418a63762844136f2c8c540d970c93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:05 +0000
Subject: [PATCH 101/104] fix: translating a block of code does not change what
 it is equal to

---
 src/mccode_antlr/common/block.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/block.py b/src/mccode_antlr/common/block.py
index dc223bd..f9cf4ac 100644
--- a/src/mccode_antlr/common/block.py
+++ b/src/mccode_antlr/common/block.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from .utilities import escape_str_for_c
 
 @dataclass
@@ -6,7 +6,8 @@ class RawC:
     filename: str
     line: int
     source: str
-    translated: str = None
+    # an intermediate result, which does not identify the block
+    translated: str = field(default=None, repr=False, compare=False)
 
     def __str__(self):
         return self.source
-- 
2.43.0


From 756fbc1b7e8cc1c7640b83652a6d84989f254933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 102/104] fix: translating a jump does not change what it is
 equal to

---
 src/mccode_antlr/instr/jump.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 4a7d83b..b181f6d 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from ..common import Expr
 
 
@@ -8,7 +8,8 @@ class Jump:
     relative_target: int
     iterate: bool
     condition: Expr
-    absolute_target: int = -1
+    # determined for the instrument which is being translated, does not identify the jump
+    absolute_target: int = field(default=-1, compare=False)
 
     @property
     def is_relative(self) -> bool:
-- 
2.43.0


From 762fd8a0c3bd9b725aa782b41991ee5fcef99147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 103/104] fix: particle variables which are not double are read
 as what they are

---
 src/mccode_antlr/translators/c_header.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index b87d3e3..647c352 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -43,9 +43,18 @@ def header_pre_runtime(
     uservar_string += '\n'.join([f'  {x.as_struct_member()};' for x in uservars])
 
     members = list(accessible_struct_members(is_mcstas)) + [x.name for x in uservars]
+    number_words = {'double', 'float', 'MCNUM', 'char', 'short', 'int', 'long', 'signed', 'unsigned'}
+
+    def as_number(x):
+        """The value of a member of the particle as a double"""
+        uservar = next((u for u in uservars if u.name == x), None)
+        if uservar is None or uservar.is_array or uservar.is_pointer or not number_words.issuperset(uservar.dtype.split()):
+            return f'*((double*)(&(p->{x})))'
+        return f'(double)(p->{x})'
+
     # Shouldn't we exclude array-valued names here?
     getvar = '\n'.join(
-        [f'  if(!str_comp("{x}",name)){{rval=*((double*)(&(p->{x})));s=0;}}' for x in members]
+        [f'  if(!str_comp("{x}",name)){{rval={as_number(x)};s=0;}}' for x in members]
     )
 
     # Array valued names seem OK here, since a user can type-cast correctly
@@ -72,7 +81,7 @@ def header_pre_runtime(
     )
 
     getuservar_byid = '\n'.join(
-        [f'  case {i}: {{rval=*( (double *)(&(p->{x.name})) ); s=0; break;}}' for i, x in enumerate(uservars)])
+        [f'  case {i}: {{rval={as_number(x.name)}; s=0; break;}}' for i, x in enumerate(uservars)])
 
     uservar_init = ''
     for x in uservars:
-- 
2.43.0


From 915e3b60838af468dee58edd7ebb2602a78da479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 104/104] fix: GETPATH prefers a file of exactly the name over
 one of a similar name

---
 src/mccode_antlr/instr/instr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 800ab92..d82762a 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -222,9 +222,11 @@ class Instr:
 
     def _getpath(self, filename: str):
         from pathlib import Path
-        for registry in self.registries:
-            if registry.known(filename):
-                return registry.path(filename).absolute().resolve()
+        # a file of exactly this name comes before any with a similar name
+        for strict in (True, False):
+            for registry in self.registries:
+                if registry.known(filename, strict=strict):
+                    return registry.path(filename).absolute().resolve()
         return Path()
 
     def _replace_env_getpath_cmd(self, flags: str):
-- 
2.43.0

