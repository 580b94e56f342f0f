From c8f7a95fce0ef43a8a996696de5b46361d12f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 01/66] fix: EPDL97 interpolation indices must not depend on
 previous queries

---
 src/fisx_epdl97.cpp | 57 +++++++--------------------------------------
 1 file changed, 9 insertions(+), 48 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index b19f6d9..9520331 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -777,63 +777,24 @@ std::string EPDL97::toUpperCaseString(const std::string & str) const
 
 std::pair<long, long> EPDL97::getInterpolationIndices(const std::vector<double> & vec, const double & x) const
 {
-    static long lastI0 = 0L;
-    std::vector<double>::size_type length, iMin, iMax, distance;
-    int counter;
+    std::vector<double>::size_type iMin, iMax, middle;
     std::pair<long, long> result;
 
-    // try if last point is of any use
-    length = vec.size();
-    if (lastI0 >= (int) length)
+    // plain bisection: the answer must depend just on the arguments
+    iMin = 0;
+    iMax = vec.size() - 1;
+    while ((iMax - iMin) > 1)
     {
-        lastI0 = (long) (length - 1);
-    }
-    if (x < vec[lastI0])
-    {
-        iMax = lastI0;
-        iMin = 0;
-    }
-    else
-    {
-        iMin = lastI0;
-        iMax = length - 1;
-        // try a point that is close?
-        if ((length - iMin) > 21)
-        {
-            lastI0 = (long) (iMin + 20);
-            if (x < vec[lastI0])
-            {
-                iMax = lastI0;
-            }
-        }
-    }
-
-    counter = 0;
-    distance = iMax - iMin;
-    while (distance > 1)
-    {
-        // divide the distance by two
-        if (distance > 2)
-        {
-            distance = distance >> 1;
-        }
-        else
-        {
-            distance -= 1;
-        }
-        lastI0 = (long) (iMin + distance);
-        if (x > vec[lastI0])
+        middle = iMin + ((iMax - iMin) >> 1);
+        if (x > vec[middle])
         {
-            iMin = lastI0;
+            iMin = middle;
         }
         else
         {
-            iMax = lastI0;
+            iMax = middle;
         }
-        distance = iMax - iMin;
-        counter++;
     }
-    // std::cout << "Needed " << counter << " iterations " << std::endl;
     result.first = (long) iMin;
     result.second = (long) iMax;
     return result;
-- 
2.43.0


From bbb531dc9f80ae737b3a053a52930d517a0cec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 02/66] fix: parse chemical formulas structurally

Groups were expanded by rewriting the formula with rounded numbers: atoms
following a group number could be lost, large or precise counts were altered,
an omitted count after a group was rejected, unbalanced parentheses recursed
without end and texts such as H1e3 or H0 were taken as formulas.
---
 src/fisx_elements.cpp | 234 ++++++++----------------------------------
 1 file changed, 44 insertions(+), 190 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 420d198..a3845d2 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1611,222 +1611,75 @@ Elements::getXRayLinesFromVacancyDistribution(const std::string & elementName,
 
 std::map<std::string, double> Elements::parseFormula(const std::string & formula) const
 {
-    std::map<std::string, double> composition;
-    std::map<std::string, double> tmpComposition;
-    std::map<std::string, double>::iterator it;
-    std::string::size_type i, p1, p2, length;
-    std::string::const_iterator c_it;
-    std::vector<std::string::size_type> openParenthesis;
-    std::vector<std::string::size_type> closeParenthesis;
-    std::vector<std::string::size_type>::size_type nParenthesis;
-    std::string newFormula;
-    bool parsingKey;
-    std::string lastKey;
-    std::string lastNumber;
-    std::vector<std::string> keys;
-    std::vector<double> numbers;
-    bool spacesPresent;
+    const std::map<std::string, double> empty;
+    std::map<std::string, double> term;
+    std::map<std::string, double>::const_iterator c_it;
+    // the formula itself followed by the groups currently open
+    std::vector<std::map<std::string, double> > groups(1);
+    std::string::size_type i, start;
     double factor;
 
-
-    //std::cout << "Received formula = " << formula << std::endl;
-    composition.clear();
-
-    if (formula.size() < 1)
-        return composition;
-
-    if (islower(formula[0]) || isdigit(formula[0])) {
-        return composition;
-    }
-
-    // look for parenthesis
-    parsingKey = false;
-    spacesPresent = false;
-    for(i=0; i < formula.size(); i++)
+    i = 0;
+    while (i < formula.size())
     {
-        if (formula[i] =='(')
-        {
-            openParenthesis.push_back(i);
-        }
-        if (formula[i] ==')')
+        term.clear();
+        if (formula[i] == '(')
         {
-            closeParenthesis.push_back(i);
-        }
-        if (formula[i] == ' ')
-        {
-            spacesPresent = true;
+            groups.push_back(empty);
+            i += 1;
+            continue;
         }
-    }
-    // if number of opened and closed do not match
-    // return an empty map (or should I throw an exception
-    // for just this case?
-    if (openParenthesis.size() != closeParenthesis.size())
-    {
-        //std::cout << "RECEIVED Formula NOT passed parenthesis check" << std::endl;
-        return composition;
-    }
-
-    if (spacesPresent)
-    {
-        //std::cout << "RECEIVED Formula NOT passed spaces check" << std::endl;
-        return composition;
-    }
-
-    nParenthesis = openParenthesis.size();
-    if ( nParenthesis > 0)
-    {
-        if (nParenthesis > 1)
+        else if (formula[i] == ')')
         {
-            p1 = 0;
-            for (i = 0; i < nParenthesis; ++i)
+            if ((groups.size() < 2) || groups.back().empty())
             {
-                if (openParenthesis[i] < closeParenthesis[0])
-                    p1 = openParenthesis[i];
+                // nothing to be closed or empty group
+                return empty;
             }
+            term.swap(groups.back());
+            groups.pop_back();
+            i += 1;
         }
-        else
-        {
-            p1 = openParenthesis[0];
-        }
-        p2 = closeParenthesis[0];
-        length = p2 - p1 - 1;
-        if(length < 1)
-        {
-            // empty substring
-            return composition;
-        }
-        tmpComposition = this->parseFormula(formula.substr(p1 + 1, length));
-        if (tmpComposition.size() < 1)
-        {
-            return tmpComposition;
-        }
-        // get the numbers assoiated to the parenthesis
-        if ((p2+1) == formula.size())
+        else if ((formula[i] >= 'A') && (formula[i] <= 'Z'))
         {
-            // the number associated  to that parenthesis is 1
-            factor = 1.0;
-        }
-        else
-        {
-            i = p2 + 1;
-            while( i < formula.size())
+            start = i;
+            i += 1;
+            while ((i < formula.size()) && (formula[i] >= 'a') && (formula[i] <= 'z'))
             {
-                if (isupper(formula[i]) || islower(formula[i]) || (formula[i] == '(') || (formula[i] == ')'))
-                {
-                    break;
-                }
                 i += 1;
             }
-            if (!this->stringToDouble(formula.substr(p2+1, i - (p2+1)), factor))
-            {
-                return composition;
-            };
-        }
-        /* better generate a new formula than to try to deal with everything here
-        for(it = tmpComposition.begin(); it != tmpComposition.end(); ++it)
-        {
-            tmpComposition[it->first] *= factor;
-        }
-        */
-        if (p1 == 0)
-        {
-            newFormula = "";
+            term[formula.substr(start, i - start)] = 1.0;
         }
         else
         {
-            newFormula = formula.substr(0, p1);
-        }
-        for(it = tmpComposition.begin(); it != tmpComposition.end(); ++it)
-        {
-            newFormula += it->first + this->toString(it->second * factor);
+            return empty;
         }
-        if (i < (formula.size()-1))
+        // the number associated to the element or group, 1 if not present
+        factor = 1.0;
+        start = i;
+        while ((i < formula.size()) && (((formula[i] >= '0') && (formula[i] <= '9')) || (formula[i] == '.')))
         {
-            newFormula += formula.substr(i, formula.size() - i);
-        }
-        return this->parseFormula(newFormula);
-    }
-    else
-    {
-        // when we arrive here we have a string without parenthesis
-        if (!isupper(formula[0]))
-        {
-            // invalid first character;
-            return composition;
-        }
-        i = 0;
-        lastKey = "";
-        while (i < formula.size())
-        {
-            if (isupper(formula[i]))
-            {
-                if(lastKey.size() > 0)
-                {
-                    keys.push_back(lastKey);
-                    if (lastNumber.size() > 0)
-                    {
-                        if (this->stringToDouble(lastNumber, factor))
-                            numbers.push_back(factor);
-                        else
-                            return composition;
-                    }
-                    else
-                    {
-                        numbers.push_back(1.0);
-                    }
-                }
-                lastNumber = "";
-                parsingKey = true;
-                lastKey = formula.substr(i, 1);
-            }
-            else
-            {
-                if (islower(formula[i]))
-                {
-                    lastKey += formula.substr(i, 1);
-                }
-                else
-                {
-                    // parsing number
-                    parsingKey = false;
-                    lastNumber += formula.substr(i, 1);
-                }
-            }
             i += 1;
         }
-        if (i == formula.size())
+        if ((i > start) && (!this->stringToDouble(formula.substr(start, i - start), factor)))
         {
-            if (parsingKey)
-            {
-                keys.push_back(lastKey);
-                numbers.push_back(1.0);
-            }
-            else
-            {
-                keys.push_back(lastKey);
-                if (this->stringToDouble(lastNumber, factor))
-                    numbers.push_back(factor);
-                else
-                    return composition;
-            }
+            return empty;
         }
-        if (keys.size() != numbers.size())
+        if (factor <= 0.0)
         {
-            return composition;
+            return empty;
         }
-        for (i = 0; i < keys.size(); ++ i)
+        for (c_it = term.begin(); c_it != term.end(); ++c_it)
         {
-            if (composition.find(keys[i]) == composition.end())
-            {
-                composition[keys[i]] = numbers[i];
-            }
-            else
-            {
-                composition[keys[i]] += numbers[i];
-            }
+            groups.back()[c_it->first] += c_it->second * factor;
         }
     }
-    return composition;
+    if (groups.size() != 1)
+    {
+        // some group was not closed
+        return empty;
+    }
+    return groups[0];
 }
 
 const std::string & Elements::getShellConstantsFile(const std::string & mainShellName) const
@@ -1971,7 +1824,8 @@ bool Elements::stringToDouble(const std::string& str, double& number)
         // Number conversion failed
         return false;
     }
-    return true;
+    // everything has to be part of the number
+    return (i.peek() == std::istringstream::traits_type::eof());
 }
 
 std::string Elements::toString(const double& number)
-- 
2.43.0


From ae494ef21045d209e19fea833d70d17d14addfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 03/66] fix: Material.setComposition with a repeated name must
 add its amounts

The last amount replaced the previous ones and the fractions did not add to one.
---
 src/fisx_material.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_material.cpp b/src/fisx_material.cpp
index f531107..4982985 100644
--- a/src/fisx_material.cpp
+++ b/src/fisx_material.cpp
@@ -140,7 +140,7 @@ void Material::setComposition(const std::vector<std::string> & names, const std:
 
     for (i = 0; i < amounts.size(); ++i)
     {
-        this->composition[names[i]] = amounts[i] / total;
+        this->composition[names[i]] += amounts[i] / total;
     }
 
 }
-- 
2.43.0


From ad8121b31b511262cd521cb8ab9a37c933dfed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 04/66] fix: a rejected addMaterial must not remove the
 material to be replaced

---
 src/fisx_elements.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index a3845d2..0dd9468 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1190,6 +1190,8 @@ void Elements::addMaterial(const std::string & name, const double & density, \
     Material material;
     std::map<std::string, double> composition;
 
+    // nothing is to be replaced if the parameters are not acceptable
+    material.initialize(name, density, thickness, comment);
     if (this->getMaterialIndexFromName(name) < this->materialList.size())
     {
         if (errorOnReplace)
@@ -1202,7 +1204,6 @@ void Elements::addMaterial(const std::string & name, const double & density, \
             this->removeMaterial(name);
         }
     }
-    material.initialize(name, density, thickness, comment);
     this->materialList.push_back(material);
 
     // Try to set the composition from the name
-- 
2.43.0


From 04b224976c93324267626dc07e0cb568860e23a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 05/66] fix: materials defined in terms of themselves must be
 reported, not recursed forever

---
 src/fisx_elements.cpp | 30 ++++++++++++++++++++++++++++--
 src/fisx_elements.h   |  7 +++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 0dd9468..557e655 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1327,6 +1327,12 @@ void Elements::removeMaterials()
 }
 
 std::map<std::string, double> Elements::getComposition(const std::string & name) const
+{
+    return this->getNestedComposition(name, 0);
+}
+
+std::map<std::string, double> Elements::getNestedComposition(const std::string & name, \
+                                        const std::vector<Material>::size_type & level) const
 {
     std::string msg;
     std::map<std::string, double> result;
@@ -1352,6 +1358,12 @@ std::map<std::string, double> Elements::getComposition(const std::string & name)
         return result;
     }
 
+    if (level >= this->materialList.size())
+    {
+        msg = "Material " + name + " with circular definition";
+        throw std::invalid_argument(msg);
+    }
+
     // make sure we give back the elemental material composition
     tmpResult = this->materialList[i].getComposition();
     if (tmpResult.size() < 1)
@@ -1375,7 +1387,7 @@ std::map<std::string, double> Elements::getComposition(const std::string & name)
     // now, a material can be made of formulas, elements or other materials.
     for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
     {
-        composition = this->getComposition(c_it->first);
+        composition = this->getNestedComposition(c_it->first, level + 1);
         if (composition.size() < 1)
         {
             return composition;
@@ -1432,6 +1444,13 @@ std::map<std::string, double> Elements::getComposition(const std::map<std::strin
 
 std::map<std::string, double> Elements::getComposition(const std::string & name, \
                                                  const std::vector<Material> & additionalMaterials) const
+{
+    return this->getNestedComposition(name, additionalMaterials, 0);
+}
+
+std::map<std::string, double> Elements::getNestedComposition(const std::string & name, \
+                                        const std::vector<Material> & additionalMaterials, \
+                                        const std::vector<Material>::size_type & level) const
 {
     std::vector<Material>::size_type i;
     std::map<std::string, double> result;
@@ -1454,6 +1473,13 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
         return this->getComposition(name);
     }
 
+    if (level > (this->materialList.size() + additionalMaterials.size()))
+    {
+        std::string msg;
+        msg = "Material " + name + " with circular definition";
+        throw std::invalid_argument(msg);
+    }
+
     // check if it is a material of the supplied list
     for (i = 0; i < additionalMaterials.size(); i++)
     {
@@ -1482,7 +1508,7 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
     // supplied list and a material can be made of formulas, elements or other materials.
     for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
     {
-        composition = this->getComposition(c_it->first, additionalMaterials);
+        composition = this->getNestedComposition(c_it->first, additionalMaterials, level + 1);
         if (composition.size() < 1)
         {
             return composition;
diff --git a/src/fisx_elements.h b/src/fisx_elements.h
index 73e590d..88f42e7 100644
--- a/src/fisx_elements.h
+++ b/src/fisx_elements.h
@@ -572,6 +572,13 @@ public:
     static std::string toString(const double& number);
 
 private:
+    // Composition of a material nested at the given level. A nesting deeper than the number
+    // of materials is only possible if a material is (indirectly) made of itself.
+    std::map<std::string, double> getNestedComposition(const std::string & name, \
+                            const std::vector<Material> & additionalMaterials, \
+                            const std::vector<Material>::size_type & level) const;
+    std::map<std::string, double> getNestedComposition(const std::string & name, \
+                            const std::vector<Material>::size_type & level) const;
 
     void initialize(std::string, std::string);
 
-- 
2.43.0


From d6fb9df5c6bfb553dd7f0b4196c98dbff3073ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 06/66] fix: L2P10 and L2P11 rates must not replace the L2P1
 rate

The EADL97 tables give them as zero and the L2P1, L3P1, M2P1 and M3P1 lines of
the elements from Pt on were lost.
---
 src/fisx_shell.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index 3790d33..22fd834 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -222,7 +222,8 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
                 // energy will not be derived from the binding energies
                 // PyMca was deriving the energy skipping the last digit.
                 // std::cout << "setting key" << tmpString.substr(0, 4) << std::endl;
-                this->radiativeTransitions[tmpString.substr(0, 4)] = values[i];
+                // Do not forget what was already given to that key (L1P10 and L1P11 follow L1P1)
+                this->radiativeTransitions[tmpString.substr(0, 4)] += values[i];
                 // other alternative would be to generate two keys with half
                 // the rate as being closer to the real stuff. Nevertheless,
                 // both transitions would most likely be mixed due to the
@@ -239,7 +240,7 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
         {
             if (tmpString.substr(0, this->name.size()) == this->name)
             {
-                this->radiativeTransitions[tmpString] = values[i];
+                this->radiativeTransitions[tmpString] += values[i];
             }
             else
             {
-- 
2.43.0


From b4152f8d3276757c23fe97565625e12de855f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 07/66] fix: shell data files with fewer rows than scans or
 more rows than elements

They made the library read out of bounds.
---
 src/fisx_elements.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 557e655..d791549 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -382,11 +382,16 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
+        if ((tmpValues.size() < 1) || (tmpValues[0].size() != nLabels))
         {
             msg = "Number of values does not match number of labels in " + fileName;
             throw std::ios_base::failure(msg);
         }
+        if (tmpValues.size() > this->elementList.size())
+        {
+            msg = "More rows than elements in " + fileName;
+            throw std::ios_base::failure(msg);
+        }
         tmpDict.clear();
         for (n = 0; n < tmpValues.size(); n++)
         {
@@ -490,11 +495,16 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
+        if ((tmpValues.size() < 1) || (tmpValues[0].size() != nLabels))
         {
             msg = "Number of values does not match number of labels in " + fileName;
             throw std::ios_base::failure(msg);
         }
+        if (tmpValues.size() > this->elementList.size())
+        {
+            msg = "More rows than elements in " + fileName;
+            throw std::ios_base::failure(msg);
+        }
         tmpDict.clear();
         for (n = 0; n < tmpValues.size(); n++)
         {
@@ -586,11 +596,16 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
+        if ((tmpValues.size() < 1) || (tmpValues[0].size() != nLabels))
         {
             msg = "Number of values does not match number of labels in " + fileName;
             throw std::ios_base::failure(msg);
         }
+        if (tmpValues.size() > this->elementList.size())
+        {
+            msg = "More rows than elements in " + fileName;
+            throw std::ios_base::failure(msg);
+        }
         tmpDict.clear();
         for (n = 0; n < tmpValues.size(); n++)
         {
@@ -633,6 +648,10 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
     {
         throw std::ios_base::failure("No scans found in file!");
     }
+    if (nScans > (int) this->elementList.size())
+    {
+        throw std::ios_base::failure("More scans than elements in file!");
+    }
 
     for (n = 0; n < nScans; n++)
     {
-- 
2.43.0


From fdef3507cd3fb1d25fe9d748cf20566cc570ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 08/66] fix: attenuation tables without pair production or with
 mismatched sizes

Optional pair production data were read out of bounds.
---
 src/fisx_elements.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index d791549..8043b57 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -760,6 +760,13 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
         throw std::invalid_argument(msg);
     }
 
+    // the pair production coefficients can be missing
+    if ((energy.size() < 2) || (photoelectric.size() != energy.size()) || (coherent.size() != energy.size()) || \
+        (compton.size() != energy.size()) || ((pair.size() > 0) && (pair.size() != energy.size())))
+    {
+        msg = "Not the same number of energies and mass attenuation coefficients for element " + name;
+        throw std::invalid_argument(msg);
+    }
 
     // we have to make sure the partial mass attenuation photoelectric coefficients and the total
     // photoelectric mass attenuation coefficients are self-consistent
@@ -790,7 +797,8 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // first calculate the appropriate energy grid
 
     j = 0;
-    while(massAttenuationCoefficients["energy"][j] < energy[0])
+    while((j < massAttenuationCoefficients["energy"].size()) && \
+          (massAttenuationCoefficients["energy"][j] < energy[0]))
     {
         j++;
     }
@@ -905,7 +913,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // pair
     for (i = j; i < newEnergyGrid.size(); i++)
     {
-        massAttenuationCoefficients["pair"][i] = pair[i - j];
+        massAttenuationCoefficients["pair"][i] = pair.size() ? pair[i - j] : 0.0;
     }
 
     // photoelectric
-- 
2.43.0


From 540a9acb75184235c154e0ba48355c277bfc3def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 09/66] fix: a photon energy column must not be taken as the
 photoelectric one

---
 src/fisx_elements.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 8043b57..6a9a631 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -673,7 +673,8 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
                     muEnergy[j] = data[j][i];
                 }
             }
-            if (key.find("PHOTO") != std::string::npos)
+            // PhotonEnergy is not the photoelectric column
+            if ((key.find("PHOTO") != std::string::npos) && (key.find("ENERGY") == std::string::npos))
             {
                 muPhotoelectric.resize(data.size());
                 for (j = 0; j < data.size(); j++)
-- 
2.43.0


From 53c52b1a42aa169deb48f38aad7eb2380aa89b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 10/66] fix: attenuation tables with an edge below the binding
 energy were rejected if starting at the lowest energy

---
 src/fisx_elements.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 6a9a631..71c66b9 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -858,7 +858,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
                 }
             }
         }
-        if (j > 0)
+        if (i > 0)
         {
             if (newEnergyGrid[i] < newEnergyGrid[i - 1])
             {
-- 
2.43.0


From 594409b7fa91797a84b0ab3222c953f3e473a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 11/66] fix: photoelectric coefficients of shells without
 tabulated values

The search of values to extrapolate from did not stop at the end of the table,
and shells without binding energy or table were dereferenced.
---
 src/fisx_element.cpp | 27 +++++++++++++++++++++++----
 src/fisx_epdl97.cpp  | 16 ++++++++++++++--
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index b3292ba..cb6a76b 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -709,13 +709,20 @@ std::map<std::string, double> \
         if (shell != "all other")
         {
             c_itSingle = this->bindingEnergy.find(shell);
-            if ((c_itSingle->second == 0.0) || (energy < c_itSingle->second))
+            if ((c_itSingle == this->bindingEnergy.end()) || \
+                (c_itSingle->second == 0.0) || (energy < c_itSingle->second))
             {
                 continue;
             }
         }
         c_it = this->muPartialPhotoelectricEnergy.find(shell);
         y_it = this->muPartialPhotoelectricValue.find(shell);
+        if ((c_it == this->muPartialPhotoelectricEnergy.end()) || \
+            (y_it == this->muPartialPhotoelectricValue.end()) || (c_it->second.size() < 2))
+        {
+            // no coefficients given for that shell
+            continue;
+        }
         indices = this->getInterpolationIndices(c_it->second, energy);
         i1 = indices.first;
         i2 = indices.second;
@@ -775,11 +782,17 @@ std::map<std::string, double> \
                         // according to the binding energies, the shell is excited, but the
                         // respective mass attenuation is zero. We have to extrapolate
                         i1w = i1;
-                        while(y_it->second[i1w] <= 0.0)
+                        while(((i1w + 1) < (long) y_it->second.size()) && (y_it->second[i1w] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
+                        if (i2w >= (long) y_it->second.size())
+                        {
+                            // nothing to extrapolate from
+                            result[shell] = y_it->second[i1w];
+                            continue;
+                        }
                         y0 = y_it->second[i1w];
                         y1 = y_it->second[i2w];
                         x0w = c_it->second[i1w];
@@ -835,15 +848,21 @@ std::map<std::string, double> \
                     // respective mass attenuation is zero. We have to extrapolate
                     // std::cout << "case b2" << std::endl;
                     i1w = i1;
-                    while(y_it->second[i1w] <= 0.0)
+                    while(((i1w + 1) < (long) y_it->second.size()) && (y_it->second[i1w] <= 0.0))
                     {
                         i1w += 1;
                     }
                     i2w = i1w + 1;
+                    if (i2w >= (long) y_it->second.size())
+                    {
+                        // nothing to extrapolate from
+                        result[shell] = y_it->second[i1w];
+                        continue;
+                    }
                     x0w = c_it->second[i1w];
                     x1w = c_it->second[i2w];
                     // check for duplicates
-                    if ((x1w - x0w) < 1.0E-10)
+                    if (((x1w - x0w) < 1.0E-10) && ((i2w + 1) < (long) y_it->second.size()))
                     {
                         i1w += 1;
                         i2w += 1;
diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 9520331..fe87834 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -468,11 +468,17 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                                 // according to the binding energies, the shell is excited, but the
                                 // respective mass attenuation is zero. We have to extrapolate
                                 i1w = i1;
-                                while((*pVector)[i1w][idx] <= 0.0)
+                                while(((i1w + 1) < (long) (*pVector).size()) && ((*pVector)[i1w][idx] <= 0.0))
                                 {
                                     i1w += 1;
                                 }
                                 i2w = i1w + 1;
+                                if (i2w >= (long) (*pVector).size())
+                                {
+                                    // nothing to extrapolate from
+                                    result[key] = (*pVector)[i1w][idx];
+                                    continue;
+                                }
                                 y0 = (*pVector)[i1w][idx];
                                 y1 = (*pVector)[i2w][idx];
                                 x0w = this->muEnergy[zHelp][i1w];
@@ -556,11 +562,17 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                         // extrapolation case
                         // We are forcing EPDL97 to respect a given set of binding energies
                         i1w = i1;
-                        while((*pVector)[i1w][idx] <= 0.0)
+                        while(((i1w + 1) < (long) (*pVector).size()) && ((*pVector)[i1w][idx] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
+                        if (i2w >= (long) (*pVector).size())
+                        {
+                            // nothing to extrapolate from
+                            result[key] = (*pVector)[i1w][idx];
+                            continue;
+                        }
                         y0 = (*pVector)[i1w][idx];
                         y1 = (*pVector)[i2w][idx];
                         x0w = this->muEnergy[zHelp][i1w];
-- 
2.43.0


From a07007b25b417dabd9d745bb6b99e8b75771ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 12/66] fix: interpolation of coefficients next to a vanishing
 tabulated value

---
 src/fisx_element.cpp | 18 ++++++++----------
 src/fisx_epdl97.cpp  |  9 ++++-----
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index cb6a76b..764cc10 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -433,12 +433,11 @@ std::map<std::string, double> Element::getMassAttenuationCoefficients(const doub
                 }
                 else
                 {
-                    if ((y1 > 0.0) && ((energy - x0) > 1.E-5))
-                    {
-                        result[key] = exp(B * log(y1));
-                    }
-                    else
+                    // a value is zero, log-log interpolation is not possible
+                    result[key] = (y0 * (x1 - energy) + y1 * (energy - x0)) / (x1 - x0);
+                    if (result[key] < 0.0)
                     {
+                        // outside the table
                         result[key] = 0.0;
                     }
                 }
@@ -822,12 +821,11 @@ std::map<std::string, double> \
                 }
                 else
                 {
-                    if ((y1 > 0.0) && ((energy - x0) > 1.E-5))
-                    {
-                        result[shell] = exp(B * log(y1));
-                    }
-                    else
+                    // a value is zero, log-log interpolation is not possible
+                    result[shell] = (y0 * (x1 - energy) + y1 * (energy - x0)) / (x1 - x0);
+                    if (result[shell] < 0.0)
                     {
+                        // outside the table
                         result[shell] = 0.0;
                     }
                 }
diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index fe87834..397d2bf 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -522,12 +522,11 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                 }
                 else
                 {
-                    if ((y1 > 0.0) && ((energy - x0) > 1.E-5))
-                    {
-                        result[key] = exp(B * log(y1));
-                    }
-                    else
+                    // a value is zero, log-log interpolation is not possible
+                    result[key] = (y0 * (x1 - energy) + y1 * (energy - x0)) / (x1 - x0);
+                    if (result[key] < 0.0)
                     {
+                        // outside the table
                         result[key] = 0.0;
                     }
                 }
-- 
2.43.0


From f803190ca4f4a872863b4413d07c106ab104f84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 13/66] fix: stored calculations survived changes of
 transitions and binding energies

---
 src/fisx_element.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 764cc10..ce40b80 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -150,6 +150,9 @@ void Element::setBindingEnergies(std::map<std::string, double> bindingEnergies)
     // get rid of any shell definition
     this->shellInstance.clear();
     this->bindingEnergy.clear();
+    // the stored calculations are no longer valid
+    this->emptyCascadeCache();
+    this->clearCache();
 
     for (it = bindingEnergies.begin(); it != bindingEnergies.end(); ++it)
     {
@@ -1000,6 +1003,8 @@ void Element::setRadiativeTransitions(std::string subshell, \
         throw std::invalid_argument(msg);
     }
     this->shellInstance[subshell].setRadiativeTransitions(labels, values);
+    this->emptyCascadeCache();
+    this->clearCache();
 }
 
 void Element::setRadiativeTransitions(std::string subshell, std::map<std::string, double> values)
@@ -1017,6 +1022,7 @@ void Element::setRadiativeTransitions(std::string subshell, std::map<std::string
         throw std::invalid_argument("Requested shell is not a K, L or M subshell");
     }
     this->shellInstance[subshell].setRadiativeTransitions(values);
+    this->emptyCascadeCache();
     this->clearCache();
 }
 
@@ -1046,6 +1052,7 @@ void Element::setNonradiativeTransitions(std::string subshell, std::vector<std::
         throw std::invalid_argument("Requested shell is not a K, L or M subshell");
     }
     this->shellInstance[subshell].setNonradiativeTransitions(labels, values);
+    this->emptyCascadeCache();
     this->clearCache();
 }
 
@@ -1064,6 +1071,7 @@ void Element::setNonradiativeTransitions(std::string subshell, std::map<std::str
         throw std::invalid_argument("Requested shell is not a K, L or M subshell");
     }
     this->shellInstance[subshell].setNonradiativeTransitions(values);
+    this->emptyCascadeCache();
     this->clearCache();
 }
 
-- 
2.43.0


From c0faca78aa69a4430d3bb8d017cc0fe2dd5ba155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 14/66] fix: escape peak cache initialization and invalidation

---
 src/fisx_elements.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 71c66b9..7e3877a 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -155,6 +155,9 @@ void Elements::initialize(std::string epdl97Directory, std::string bindingEnergi
     std::string joinSymbol;
     std::string filename;
 
+    // Calculation of escape peaks not cached by default
+    this->escapeCacheEnabled = 0;
+
     // Indicate we are going to configure everything
     this->shellConstantsFile["K"] = "";
     this->shellConstantsFile["L"] = "";
@@ -303,6 +306,9 @@ void Elements::addElement(const Element & element)
     std::string name;
     name = element.getName();
 
+    // the escape ratios depend on this information
+    this->clearEscapeCache();
+
     if (this->elementDict.find(name) != this->elementDict.end())
     {
         // an element with that name already exists
@@ -338,6 +344,9 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
         throw std::invalid_argument("Invalid main shell <" + mainShellName +">");
     }
 
+    // the escape ratios depend on this information
+    this->clearEscapeCache();
+
     sf = SimpleSpecfile(fileName);
     nScans = sf.getNumberOfScans();
     if (mainShellName == "K")
@@ -451,6 +460,9 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
         throw std::invalid_argument(msg);
     }
 
+    // the escape ratios depend on this information
+    this->clearEscapeCache();
+
     sf = SimpleSpecfile(fileName);
     nScans = sf.getNumberOfScans();
     if (mainShellName == "K")
@@ -552,6 +564,9 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
         throw std::invalid_argument(msg);
     }
 
+    // the escape ratios depend on this information
+    this->clearEscapeCache();
+
     sf = SimpleSpecfile(fileName);
     nScans = sf.getNumberOfScans();
     if (mainShellName == "K")
@@ -774,6 +789,9 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // we are doing this because the only compilation providing subshell photoelectric cross sections
     // is EPDL97
 
+    // the escape ratios depend on this information
+    this->clearEscapeCache();
+
     // we reset the mass attenuation coefficients of the element to the EPDL97 values
     element = &(this->elementList[this->elementDict[name]]);
     atomicNumber = this->elementList[this->elementDict[name]].getAtomicNumber();
-- 
2.43.0


From 5560364e50454307c7f1b843b4d7f6635d881254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 15/66] fix: vacancies in other shells must not be an error
 only when using the cascade cache

---
 src/fisx_element.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index ce40b80..cc1ef77 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1354,10 +1354,8 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
                 cacheKey = cascadeCache.find(c_it->first);
                 if (cacheKey == cascadeCache.end())
                 {
-                    std::cout << this->name << " Error processing vacancy on shell " << c_it->first << std::endl;
-                    throw std::runtime_error("Vacancy in a shell not present in the cache!");
-                    // the above is not good, there can be no emission following a vacancy (rate too low)
-                    // it seems to be triggered by As L1 vacancies
+                    // not one of the K, L or M shells of the element, no emission just as without cache
+                    continue;
                 }
                 for(std::map<std::string, std::map<std::string, double> >::const_iterator rayIt = \
                     cacheKey->second.begin(); rayIt != cacheKey->second.end(); ++rayIt)
-- 
2.43.0


From 59ca3898b771fc482ec6b0949bc2eb3f921a3d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 16/66] fix: layers without density must take the one of their
 material

---
 src/fisx_layer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_layer.cpp b/src/fisx_layer.cpp
index 16b509f..d54a25f 100644
--- a/src/fisx_layer.cpp
+++ b/src/fisx_layer.cpp
@@ -71,7 +71,7 @@ void Layer::setMaterial(const std::string & materialName)
 void Layer::setMaterial(const Material & material)
 {
     this->material = material;
-    if (this->density < 0.0)
+    if (this->density <= 0.0)
     {
         this->density = this->material.getDefaultDensity();
     }
-- 
2.43.0


From 1baea464c6ed87598e6475d662b0c109cd5172ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 17/66] fix: beams with fewer weights than energies

---
 src/fisx_beam.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fisx_beam.cpp b/src/fisx_beam.cpp
index cc5095a..831042e 100644
--- a/src/fisx_beam.cpp
+++ b/src/fisx_beam.cpp
@@ -27,6 +27,7 @@
 #############################################################################*/
 #include "fisx_beam.h"
 #include <algorithm>
+#include <stdexcept>
 
 namespace fisx
 {
@@ -47,6 +48,13 @@ void Beam::setBeam(const std::vector<double> & energy, \
     int defaultCharacteristic;
     double defaultDivergency;
 
+    if (((weight.size() > 1) && (weight.size() < energy.size())) || \
+        ((characteristic.size() > 1) && (characteristic.size() < energy.size())) || \
+        ((divergency.size() > 1) && (divergency.size() < energy.size())))
+    {
+        throw std::invalid_argument("Beam needs as many weights, flags or divergencies as energies");
+    }
+
     this->normalized = false;
 
     if(energy.size() > 0)
@@ -177,6 +185,12 @@ void Beam::setBeam(const int & nValues, const double *energy, const double *weig
     int i;
     std::vector<int> flags;
 
+    if ((characteristic == NULL) || (nValues < 1))
+    {
+        this->setBeam(nValues, energy, weight, (const int *) NULL, divergency);
+        return;
+    }
+
     flags.resize(nValues);
     for (i = 0; i < nValues; i++)
     {
-- 
2.43.0


From b2be1d04e854b65f61b8bc4098c5927a5e5450b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 18/66] fix: reference layer not initialized and layer indices
 out of range

---
 src/fisx_xrf.cpp       | 4 ++++
 src/fisx_xrfconfig.cpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/fisx_xrf.cpp b/src/fisx_xrf.cpp
index ca652ab..5b083a3 100644
--- a/src/fisx_xrf.cpp
+++ b/src/fisx_xrf.cpp
@@ -167,6 +167,10 @@ double XRF::getGeometricEfficiency(const int & sampleLayerIndex) const
         std::cout << "Negative sample layer index in getGeometricEfficiency " << sampleLayerIndex << std::endl;
         throw std::invalid_argument("Negative sample layer index in getGeometricEfficiency");
     }
+    if ((sampleLayerIndex > 0) && (sampleLayerIndex >= (int) sample.size()))
+    {
+        throw std::invalid_argument("Sample layer index out of range in getGeometricEfficiency");
+    }
     if (sampleLayerIndex != referenceLayerIndex)
     {
         if (sampleLayerIndex > referenceLayerIndex)
diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 6689670..f668232 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -37,6 +37,7 @@ namespace fisx
 XRFConfig::XRFConfig()
 {
     this->setGeometry(45.0, 45.0, 90.);
+    this->referenceLayer = 0;
 }
 
 void XRFConfig::setGeometry(const double & alphaIn, const double & alphaOut, const double & scatteringAngle)
@@ -551,6 +552,10 @@ void XRFConfig::setSample(const std::vector<Layer> & layers, const int & referen
     {
         throw std::invalid_argument("Reference layer must be smaller than number of layers");
     }
+    if (referenceLayer < 0)
+    {
+        throw std::invalid_argument("Reference layer cannot be negative");
+    }
     this->sample = layers;
     this->referenceLayer = referenceLayer;
 }
-- 
2.43.0


From 6b201be56a5d22d740cba52ceef5f2b80a771747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 19/66] fix: escape ratios of compositions not adding to one

---
 src/fisx_elements.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 7e3877a..80478c9 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1948,6 +1948,7 @@ std::map<std::string,std::map<std::string, double> > Elements::getEscape( \
     std::map<std::string, double>::const_iterator c_it;
     std::string element;
     double massFraction;
+    double totalMassFraction;
     double muIncident;
     double muFluorescence;
     double sinAlphaIn;
@@ -1991,10 +1992,16 @@ std::map<std::string,std::map<std::string, double> > Elements::getEscape( \
         // any case.
         intrinsicEfficiency = 1.0;
     }
+    // the mass fractions have to add to one, as in the calculation of the mass attenuation coefficients
+    totalMassFraction = 0.0;
+    for (c_it = composition.begin(); c_it != composition.end(); c_it++)
+    {
+        totalMassFraction += c_it->second;
+    }
     for (c_it = composition.begin(); c_it != composition.end(); c_it++)
     {
         element = c_it->first;
-        massFraction = c_it->second;
+        massFraction = c_it->second / totalMassFraction;
         excitationFactors = this->getExcitationFactors(element, energy, massFraction);
         std::map<std::string, std::map<std::string, double> >::const_iterator it;
         std::map<std::string, double>::const_iterator mapIt;
-- 
2.43.0


From f4748e50795bb0347fa30d5a6627652a3626ed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 20/66] fix: exponential integral of negative arguments and of
 one

---
 src/fisx_math.cpp | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 7d3724a..36f3add 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -52,19 +52,28 @@ double Math::E1(const double & x)
         //
         //
         // Euler's gamma = 0.577215664901532860;
-        // I decide to evaluate just 10 terms of the series
         //
-        // TODO: Unroll the loop with n * factorial(n) already computed.
-        double result;
-        double factorial[11] = {1.0, 1.0, 2.0, 6.0, 24., 120.0, 720., 5040., 40320., 362880., 3628800.};
-        result = -0.577215664901532860;
-        for(int n = 10; n > 0; --n)
+        // All the terms of the sum have the same sign
+        //
+        if (x < -40)
+        {
+            // asymptotic expansion
+            return std::exp(-x) * Math::deBoerD(x);
+        }
+        double result = -0.577215664901532860;
+        double power = 1.0;     // (-x)^n / n!
+        double term;
+        for(int n = 1; n < 500; ++n)
         {
-            result -= pow(-x, n) /(n * factorial[n]);
+            power *= -x / n;
+            term = power / n;
+            result -= term;
+            if (term < 1.0e-17 * std::abs(result))
+                break;
         }
         return result - std::log(-x);
     }
-    if(x < 1)
+    if(x <= 1)
     {
         return Math::AS_5_1_53(x) - std::log(x);
     }
@@ -158,6 +167,20 @@ double Math::AS_5_1_56(const double & x)
 
 double Math::deBoerD(const double & x)
 {
+    if (x < -40)
+    {
+        // AS 5.1.51, asymptotic expansion (neither exp(x) nor E1(x) can be used for large values)
+        double term = 1.0;
+        double sum = 1.0;
+        for(int n = 1; n < 40; ++n)
+        {
+            term *= -n / x;
+            sum += term;
+            if (std::abs(term) < 1.0e-17)
+                break;
+        }
+        return sum / x;
+    }
 
 #ifndef NDEBUG
     // AS 5.1.19
-- 
2.43.0


From 7c6c6193f8382cc2f727b9730972e394e708f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 21/66] fix: coefficient of the error functions

---
 src/fisx_math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 36f3add..1593d37 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -593,7 +593,7 @@ double Math::erf(const double & x)
 
     z = std::fabs(x);
     t = 1.0 / (1.0 + 0.5 * z);
-    r = t * std::exp(- z * z - 1.26551223 + t * (1.00002368 + t * (0.3740916 + \
+    r = t * std::exp(- z * z - 1.26551223 + t * (1.00002368 + t * (0.37409196 + \
         t * (0.09678418 + t * (-0.18628806 + t * (0.27886807 + t * (-1.13520398 + \
         t * (1.48851587 + t * (-0.82215223 + t * 0.17087277)))))))));
     if (x < 0)
@@ -611,7 +611,7 @@ double Math::erfc(const double & x)
 
     z = std::fabs(x);
     t = 1.0 / (1.0 + 0.5 * z);
-    r = t * std::exp(- z * z - 1.26551223 + t * (1.00002368 + t * (0.3740916 + \
+    r = t * std::exp(- z * z - 1.26551223 + t * (1.00002368 + t * (0.37409196 + \
         t * (0.09678418 + t * (-0.18628806 + t * (0.27886807 + t * (-1.13520398 + \
         t * (1.48851587 + t * (-0.82215223 + t * 0.17087277)))))))));
     if (x < 0)
-- 
2.43.0


From 50484e87c5e82bc7deea9af8d18e19215e3cc25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 22/66] fix: thick target criterion ignoring the exciting line

---
 src/fisx_math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 1593d37..93614e6 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -258,9 +258,9 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
 
     // express the thickness in g/cm2
     d = thickness * density;
-    if (((mu1 + mu2) * d) > 10.)
+    if ((((mu1 + mu2) * d) > 10.) && (((mu1 + muj) * d) > 10.))
     {
-        // thick target
+        // thick target, also for the exciting radiation
         tmpDouble = (muj/mu1) * std::log(1 + mu1/muj) / ((mu1 + mu2) * muj);
         //std::cout << "THICK TARGET = " << tmpDouble << std::endl;
         if (!Math::isFiniteNumber(tmpDouble))
-- 
2.43.0


From f163ba98d5a4f744cd903cdba400a8535b456706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 23/66] fix: intralayer enhancement when two attenuation
 coefficients coincide

---
 src/fisx_math.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 93614e6..5fab0d4 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -297,9 +297,12 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
     }
     */
 
-    tmpDouble = Math::deBoerD((muj - mu2) * d) / (mu2 * (mu1 + mu2));
-    tmpDouble = tmpDouble -(Math::deBoerD(muj * d) / (mu1 * mu2)) + \
-                 (Math::deBoerD((muj + mu1) * d) / (mu1 * (mu1 + mu2)));
+    tmpDouble = (Math::deBoerD((muj + mu1) * d) / (mu1 * (mu1 + mu2))) - \
+                (Math::deBoerD(muj * d) / (mu1 * mu2));
+    if (mu2 != muj)
+    {
+        tmpDouble += Math::deBoerD((muj - mu2) * d) / (mu2 * (mu1 + mu2));
+    }
     tmpDouble *= std::exp(-(mu1 + muj) * d);
 
     tmpDouble += std::log(1.0 + (mu1/muj)) / (mu1 * (mu1 + mu2));
@@ -309,11 +312,17 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
         tmpDouble += (std::exp(-(mu1 + mu2) * d) / (mu2 * (mu1 + mu2))) * \
                       std::log(1.0 - (mu2 / muj));
     }
-    else
+    else if (mu2 > muj)
     {
         tmpDouble += (std::exp(-(mu1 + mu2) * d) / (mu2 * (mu1 + mu2))) * \
                       std::log((mu2 / muj) - 1.0);
     }
+    else
+    {
+        // limit of the sum of the two divergent terms: - gamma - log(muj * d)
+        tmpDouble -= (std::exp(-(mu1 + mu2) * d) / (mu2 * (mu1 + mu2))) * \
+                      (0.577215664901532860 + std::log(muj * d));
+    }
     if (tmpDouble < 0)
     {
         std::cout << " Math::deBoerL0 CALCULATED = " << tmpDouble << std::endl;
-- 
2.43.0


From 328381a8b4bf193a0c4d3395814925af53e10f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 24/66] fix: thick target limit of PyMath.deBoerL0

---
 python/cython/PyMath.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/cython/PyMath.pyx b/python/cython/PyMath.pyx
index 5237007..752b240 100644
--- a/python/cython/PyMath.pyx
+++ b/python/cython/PyMath.pyx
@@ -55,6 +55,9 @@ cdef class PyMath:
         """
         The case the product density * thickness is 0.0 is for calculating the thick target limit
         """
+        if density * thickness == 0.0:
+            density = 1.0
+            thickness = float("inf")
         return self.thisptr.deBoerL0(mu1, mu2, muj, density, thickness)
 
     def deBoerX(self, double p, double q, double d1, double d2, double mu_1_j, double mu_2_j, double mu_b_d_t = 0.0):
-- 
2.43.0


From 307cea952635824a4e7c069bec7463f263e89c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 25/66] fix: interlayer enhancement when attenuation
 coefficients coincide

---
 src/fisx_math.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 5fab0d4..ff13081 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -347,6 +347,18 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
 double Math::deBoerX(const double & p, const double & q, const double & d1, const double & d2, \
                      const double & mu1j, const double & mu2j, const double & mubj_dt)
 {
+     // The integral is finite when q = mu1j or p = -mu2j but each of the terms V is not.
+     // Use the values at both sides.
+     if (q == mu1j)
+     {
+        return 0.5 * (Math::deBoerX(p, 0.9999999 * q, d1, d2, mu1j, mu2j, mubj_dt) + \
+                      Math::deBoerX(p, 1.0000001 * q, d1, d2, mu1j, mu2j, mubj_dt));
+     }
+     if (p == -mu2j)
+     {
+        return 0.5 * (Math::deBoerX(0.9999999 * p, q, d1, d2, mu1j, mu2j, mubj_dt) + \
+                      Math::deBoerX(1.0000001 * p, q, d1, d2, mu1j, mu2j, mubj_dt));
+     }
      if ((false))
      {
         double result;
-- 
2.43.0


From cd101e2182b00b96d9766d8bbc1ff5c637fcdd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 26/66] fix: rational approximation AS 5.1.56

---
 src/fisx_math.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index ff13081..0912cc6 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -154,9 +154,9 @@ double Math::AS_5_1_56(const double & x)
     {
 		throw std::invalid_argument("AS_5_1_56(x) Invalid argument. 1 <= x ");
     }
-    num = a[3] * x;
-    den = b[3] * x;
-    for (int i = 2; i >= 0; --i)
+    num = x + a[0];
+    den = x + b[0];
+    for (int i = 1; i < 4; ++i)
     {
         num = (num * x )+ a[i];
         den = (den * x )+ b[i];
-- 
2.43.0


From 856b8e99516e87ec54f5523b6ae324a5ce8c45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 27/66] fix: rounding in deBoerL0 when two attenuation
 coefficients nearly coincide

---
 src/fisx_math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 0912cc6..209dda8 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -310,12 +310,12 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
     if (mu2 < muj)
     {
         tmpDouble += (std::exp(-(mu1 + mu2) * d) / (mu2 * (mu1 + mu2))) * \
-                      std::log(1.0 - (mu2 / muj));
+                      std::log((muj - mu2) / muj);
     }
     else if (mu2 > muj)
     {
         tmpDouble += (std::exp(-(mu1 + mu2) * d) / (mu2 * (mu1 + mu2))) * \
-                      std::log((mu2 / muj) - 1.0);
+                      std::log((mu2 - muj) / muj);
     }
     else
     {
-- 
2.43.0


From 19ad7ffd819f355902e389044f8f2fe310ef51d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 28/66] fix: enhancement by a thick upper layer

---
 src/fisx_math.cpp       | 26 ++++++++++++++------------
 src/fisx_math.h         |  8 ++++++--
 src/fisx_multilayer.cpp | 22 ++++++++--------------
 3 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 209dda8..ec1b4f1 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -345,19 +345,20 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
 }
 
 double Math::deBoerX(const double & p, const double & q, const double & d1, const double & d2, \
-                     const double & mu1j, const double & mu2j, const double & mubj_dt)
+                     const double & mu1j, const double & mu2j, const double & mubj_dt, \
+                     const double & logFactor)
 {
      // The integral is finite when q = mu1j or p = -mu2j but each of the terms V is not.
      // Use the values at both sides.
      if (q == mu1j)
      {
-        return 0.5 * (Math::deBoerX(p, 0.9999999 * q, d1, d2, mu1j, mu2j, mubj_dt) + \
-                      Math::deBoerX(p, 1.0000001 * q, d1, d2, mu1j, mu2j, mubj_dt));
+        return 0.5 * (Math::deBoerX(p, 0.9999999 * q, d1, d2, mu1j, mu2j, mubj_dt, logFactor) + \
+                      Math::deBoerX(p, 1.0000001 * q, d1, d2, mu1j, mu2j, mubj_dt, logFactor));
      }
      if (p == -mu2j)
      {
-        return 0.5 * (Math::deBoerX(0.9999999 * p, q, d1, d2, mu1j, mu2j, mubj_dt) + \
-                      Math::deBoerX(1.0000001 * p, q, d1, d2, mu1j, mu2j, mubj_dt));
+        return 0.5 * (Math::deBoerX(0.9999999 * p, q, d1, d2, mu1j, mu2j, mubj_dt, logFactor) + \
+                      Math::deBoerX(1.0000001 * p, q, d1, d2, mu1j, mu2j, mubj_dt, logFactor));
      }
      if ((false))
      {
@@ -417,16 +418,17 @@ double Math::deBoerX(const double & p, const double & q, const double & d1, cons
      }
      else
      {
-        return Math::deBoerV(p, q, d1, d2, mu1j, mu2j, mubj_dt) - \
-               Math::deBoerV(p, q, d1, 0.0, mu1j, mu2j, mubj_dt) - \
-               Math::deBoerV(p, q, 0.0, d2, mu1j, mu2j, mubj_dt) + \
-               Math::deBoerV(p, q, 0.0, 0.0, mu1j, mu2j, mubj_dt);
+        return Math::deBoerV(p, q, d1, d2, mu1j, mu2j, mubj_dt, logFactor) - \
+               Math::deBoerV(p, q, d1, 0.0, mu1j, mu2j, mubj_dt, logFactor) - \
+               Math::deBoerV(p, q, 0.0, d2, mu1j, mu2j, mubj_dt, logFactor) + \
+               Math::deBoerV(p, q, 0.0, 0.0, mu1j, mu2j, mubj_dt, logFactor);
 
     }
 }
 
 double Math::deBoerV(const double & p, const double & q, const double & d1, const double & d2, \
-                     const double & mu1j, const double & mu2j, const double & mubjdt)
+                     const double & mu1j, const double & mu2j, const double & mubjdt, \
+                     const double & logFactor)
 {
     double tmpDouble1;
     double tmpDouble2;
@@ -444,7 +446,7 @@ double Math::deBoerV(const double & p, const double & q, const double & d1, cons
         if (tmpDouble2 < 0)
             tmpDouble2 = - tmpDouble2;
         tmpHelp = (mu2j / p) * std::log(tmpDouble2) + (mu1j/q) * std::log(tmpDouble1);
-        tmpHelp = -tmpHelp / (p * mu1j + q * mu2j);
+        tmpHelp = -std::exp(logFactor) * tmpHelp / (p * mu1j + q * mu2j);
         if (!Math::isFiniteNumber(tmpHelp))
         {
             std::cout << "p    " << p << std::endl;
@@ -515,7 +517,7 @@ double Math::deBoerV(const double & p, const double & q, const double & d1, cons
         std::cout << " error 4 " << std::endl;
         throw std::runtime_error("error4");
     }
-    tmpHelp = std::exp((q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt) * (tmpDouble1 + tmpDouble2);
+    tmpHelp = std::exp((q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt + logFactor) * (tmpDouble1 + tmpDouble2);
     if (!Math::isFiniteNumber(tmpHelp))
     {
         std::cout << "p    " << p << std::endl;
diff --git a/src/fisx_math.h b/src/fisx_math.h
index ba07d89..ccae637 100644
--- a/src/fisx_math.h
+++ b/src/fisx_math.h
@@ -101,16 +101,20 @@ class Math
         mu_1_j is the mass attenuation coefficient of fluorescing layer at j excitation energy
         mu_2_j is the mass attenuation coefficient of layer j at j excitation energy
         mu_b_d_t is the sum of the products mu * density * thickness of layers between layer i and j
+        log_factor is the logarithm of a factor multiplying the result. It allows to calculate
+        exp(log_factor) * X even if X itself cannot be represented.
         */
         static double deBoerX(const double & p, const double & q, \
                               const double & d1, const double & d2, \
                               const double & mu_1_j, const double & mu_2_j, \
-                              const double & mu_b_j_d_t = 0.0);
+                              const double & mu_b_j_d_t = 0.0, \
+                              const double & log_factor = 0.0);
 
         static double deBoerV(const double & p, const double & q, \
                               const double & d1, const double & d2, \
                               const double & mu_1_j, const double & mu_2_j, \
-                              const double & mu_b_j_d_t);
+                              const double & mu_b_j_d_t, \
+                              const double & log_factor = 0.0);
 
         /*!
         Returns false is x is NaN
diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 1db398e..df60cd7 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -896,8 +896,10 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                             if (iLayer > jLayer)
                             {
                                 // interlayer case b)
-                                double layerFactor;
-                                layerFactor = std::exp(-mu_2_lambda * density_2 * thickness_2/sinAlphaIn);
+                                // the layer factor itself is applied inside deBoerX because both the
+                                // attenuation and the integral can be out of range for a thick layer
+                                double logLayerFactor;
+                                logLayerFactor = -mu_2_lambda * density_2 * thickness_2/sinAlphaIn;
                                 /*
                                 This test has been removed in favour of the one dealing with the relative
                                 weights of each layer. Indeed, the relative amount of secondary excitation
@@ -995,23 +997,15 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
 
                                             bLayer++;
                                         }
-                                        tmpDouble = layerFactor * sampleLayerRates[jLayer][iLambda];
-                                        if ((mu_2_lambda/sinAlphaIn) == mu_2_j)
-                                            tmpDouble *= Math::deBoerX(-mu_2_lambda/(0.99999*sinAlphaIn), \
+                                        tmpDouble = sampleLayerRates[jLayer][iLambda];
+                                        tmpDouble *= Math::deBoerX(-mu_2_lambda/sinAlphaIn, \
                                                                   -mu_1_i/sinAlphaOut, \
                                                                   density_1 * thickness_1, \
                                                                   density_2 * thickness_2, \
                                                                   mu_1_j, \
                                                                   mu_2_j, \
-                                                                  mu_b_j_d_t);
-                                        else
-                                            tmpDouble *= Math::deBoerX(-mu_2_lambda/sinAlphaIn, \
-                                                                  -mu_1_i/sinAlphaOut, \
-                                                                  density_1 * thickness_1, \
-                                                                  density_2 * thickness_2, \
-                                                                  mu_1_j, \
-                                                                  mu_2_j, \
-                                                                  mu_b_j_d_t);
+                                                                  mu_b_j_d_t, \
+                                                                  logLayerFactor);
                                         tmpDouble *= elementMassFractionFactor * (0.5/sinAlphaIn);
                                         tmpDouble *= tmpExcitationFactors[c_it->first]["rate"];
                                         tmpStringStream.str(std::string());
-- 
2.43.0


From 359c46e7b9d9340ac52489fcb490ec166786c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 29/66] fix: count repeated peak requests once in multilayer
 fluorescence

---
 src/fisx_multilayer.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index df60cd7..ba1df03 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -470,6 +470,20 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                     // no need to calculate this layer
                     continue;
                 }
+                // the same peaks can be requested more than once, they have to be counted once
+                bool alreadyCalculated = false;
+                for (std::vector<std::string>::size_type jElement = 0; jElement < iElement; jElement++)
+                {
+                    int otherLayer = (layerList.size() > 1) ? layerList[jElement] : layerList[0];
+                    if ((elementList[jElement] == elementName) && (familyList[jElement] == lineFamily) && \
+                        ((otherLayer < 0) || ((iLayer - otherLayer) == 0)))
+                    {
+                        alreadyCalculated = true;
+                        break;
+                    }
+                }
+                if (alreadyCalculated)
+                    continue;
                 elementMassFractionFactor = 1.0;
                 if(true)
                 {
-- 
2.43.0


From 87887b2a2942dc461d5c75ffa2fe8fa50a467a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 30/66] fix: apply tertiary excitation to the layers of the
 result

---
 src/fisx_multilayer.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index ba1df03..26364e8 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -1108,6 +1108,7 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
         // Tertiary will not be correct if the peaks of the sample elements are not
         // included in the list of peaks
         std::map<std::string, std::map<int, std::map<std::string, std::map<std::string, double> > > >::iterator actualResultIt;
+        std::map<int, std::map<std::string, std::map<std::string, double> > >::iterator layerIt;
         std::map<std::string, std::map<std::string, double> >::iterator c_it;
         std::map<std::string, std::map<std::string, double> >::iterator it;
         std::map<std::string, std::map<std::string, double> >::iterator it2;
@@ -1121,10 +1122,9 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
         for (actualResultIt = actualResult.begin(); actualResultIt != actualResult.end(); ++actualResultIt)
         {
             ele = actualResultIt->first.substr(0, actualResultIt->first.find(' '));
-            for (iLayer = 0; iLayer < actualResultIt->second.size(); iLayer++)
+            for (layerIt = actualResultIt->second.begin(); layerIt != actualResultIt->second.end(); ++layerIt)
             {
-                for (it = actualResultIt->second[iLayer].begin(); \
-                     it != actualResultIt->second[iLayer].end(); ++it)
+                for (it = layerIt->second.begin(); it != layerIt->second.end(); ++it)
                 {
                     //std::cout << it->first << std::endl;
                     if (it->first.find("esc") != std::string::npos)
@@ -1153,7 +1153,7 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                     {
                         tmpStringStream.str(std::string());
                         tmpStringStream.clear();
-                        tmpStringStream << std::setfill('0') << std::setw(2) << iLayer;
+                        tmpStringStream << std::setfill('0') << std::setw(2) << layerIt->first;
                         key = ele + " " + it->first + " " + tmpStringStream.str();
                         contributingKeys[key] = factorFirst;
                         // the factor will be the same for all lines starting by KL2, being escape or not
@@ -1164,10 +1164,9 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
 
         for (actualResultIt = actualResult.begin(); actualResultIt != actualResult.end(); ++actualResultIt)
         {
-            for (iLayer = 0; iLayer < actualResultIt->second.size(); iLayer++)
+            for (layerIt = actualResultIt->second.begin(); layerIt != actualResultIt->second.end(); ++layerIt)
             {
-                for (it = actualResultIt->second[iLayer].begin(); \
-                     it != actualResultIt->second[iLayer].end(); ++it)
+                for (it = layerIt->second.begin(); it != layerIt->second.end(); ++it)
                 {
                     factorFirst = 1.0;
                     tertiary = 0.0;
@@ -1188,9 +1187,9 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                         // the originating line that should already be calculated
                         key = it->first.substr(0, it->first.find(" "));
                         tertiary = (it->second["primary"] + it->second["secondary"]) * \
-                                   (actualResultIt->second[iLayer][key]["tertiary"] /  \
-                                   (actualResultIt->second[iLayer][key]["primary"] +   \
-                                    actualResultIt->second[iLayer][key]["secondary"]));
+                                   (layerIt->second[key]["tertiary"] /  \
+                                   (layerIt->second[key]["primary"] +   \
+                                    layerIt->second[key]["secondary"]));
                     }
                     else
                     {
-- 
2.43.0


From 894922f68bf48087ca70317b2053fae3ee5f2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 31/66] fix: do not take one character lines as blank in
 specfiles

---
 src/fisx_simplespecfile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index e54bd53..915a456 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -65,7 +65,8 @@ void SimpleSpecfile::setFileName(std::string fileName)
     {
         //std::cout << line << std::endl;
         ++numberOfLines;
-        if(line.size() > 1)
+        // a line with a single character is only blank if it is a white space (or CR)
+        if((line.size() > 1) || ((line.size() == 1) && !isspace((unsigned char) line[0])))
         {
             if (line.substr(0, 2) == "#S")
             {
-- 
2.43.0


From 31761a4a268708cbd0e09c1a53c4aab12fb4962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 32/66] fix: end a scan where the next one starts

---
 src/fisx_simplespecfile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index 915a456..d967e4b 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -70,6 +70,11 @@ void SimpleSpecfile::setFileName(std::string fileName)
         {
             if (line.substr(0, 2) == "#S")
             {
+                if (startLine >= 0)
+                {
+                    // previous scan not terminated by a blank line
+                    this->scanFilePositions.back().second = numberOfLines;
+                }
                 startLine = numberOfLines;
                 this->scanFilePositions.push_back(std::make_pair(startLine, startLine));
                 endLine = -1;
-- 
2.43.0


From d5ef647918d22bc95486522c82b23c704db6273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 33/66] fix: trim all the leading spaces of the label line

---
 src/fisx_simplespecfile.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index d967e4b..134af0f 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -182,7 +182,12 @@ std::vector<std::string> SimpleSpecfile::getScanLabels(int scanIndex)
             line.erase(line.size() - 1);
 
     // trim leading and trailing spaces
-    iStart = line.find_first_of(" ") + 1;
+    iStart = line.find_first_not_of(" ", 2);
+    if (iStart == std::string::npos)
+    {
+        // there are no labels
+        return result;
+    }
     iEnd = line.find_last_not_of(" ");
     line = line.substr(iStart, 1 + iEnd - iStart);
 
-- 
2.43.0


From 5aeccf57a4d00303f1e6ad35d1f53cffdfd5d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 34/66] fix: case insensitive section lookup

---
 src/fisx_simpleini.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index 9758f6d..94f2b9d 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -310,15 +310,11 @@ const std::map<std::string, std::string > & SimpleIni::readSection(const std::st
                 if (tmpKey.size() == inputKey.size())
                 {
                     j = 0;
-                    while (std::toupper(tmpKey[j], loc) == inputKey[j])
+                    while ((j < inputKey.size()) && (std::toupper(tmpKey[j], loc) == inputKey[j]))
                     {
                         j++;
-                        if (j == inputKey.size())
-                        {
-                            break;
-                        }
                     }
-                    if (j < inputKey.size())
+                    if (j == inputKey.size())
                     {
                         return this->sectionContents[tmpKey];
                     }
-- 
2.43.0


From 9a2e59c7d631f57e3ba50fe5dae8d02962ed79cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 35/66] fix: case sensitive getSubsections

---
 src/fisx_simpleini.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index 94f2b9d..0e3c29f 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -259,7 +259,7 @@ void SimpleIni::getSubsections(const std::string & parent, \
         targetString = parent + ".";
         for (i = 0; i < this->sections.size(); i++)
         {
-            if (this->sections[i].size() == targetString.size())
+            if (this->sections[i].size() >= targetString.size())
             {
                 if (this->sections[i].substr(0, targetString.size()) == targetString)
                 {
-- 
2.43.0


From 398234e1172daea7c1497231a1c4e1aeec7aeb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 36/66] fix: do not mix sections or files when reading ini
 files

---
 src/fisx_simpleini.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index 0e3c29f..b94b105 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -72,6 +72,7 @@ void SimpleIni::readFileName(std::string fileName)
         throw std::ios_base::failure(msg);;
     }
     this->sections.clear();
+    this->sectionContents.clear();
     this->sectionPositions.clear();
     p0 = 0;
     position = 0;
@@ -132,6 +133,8 @@ void SimpleIni::readFileName(std::string fileName)
                 mainKey = trimmedLine.substr(p0 + 1, length);
                 this->sections.push_back(mainKey);
                 this->sectionPositions[mainKey] = numberOfLines;
+                // continuation lines cannot belong to a key of a previous section
+                key = "";
                 continue;
             }
 
-- 
2.43.0


From 9c21db368b6de9c57a7fe04b72b4e78cc1434c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 37/66] fix: comments in ini files

---
 src/fisx_simpleini.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index b94b105..dd27e43 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -159,7 +159,8 @@ void SimpleIni::readFileName(std::string fileName)
                 {
                     if ((trimmedLine[i] == '#') || (trimmedLine[i] == ';'))
                     {
-                        i = trimmedLine.size();
+                        // the rest of the line is a comment
+                        break;
                     }
                     if (equalPosition == 0)
                     {
@@ -190,8 +191,7 @@ void SimpleIni::readFileName(std::string fileName)
 
             if (tmpString.size() < 1)
             {
-                // empty line
-                key = "";
+                // comment line
                 continue;
             }
             if(equalPosition > 0)
-- 
2.43.0


From 51055039b73ce91a8db4b54f68484f749c746119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 38/66] fix: keep the inner spaces of continuation lines

---
 src/fisx_simpleini.cpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index dd27e43..081794b 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -59,6 +59,7 @@ void SimpleIni::readFileName(std::string fileName)
     // I should use streampos instead of size_type
     std::string::size_type p0, p1, length;
     int nQuotes;
+    int nKeyQuotes;
     int nItems;
     std::string::size_type equalPosition;
     long numberOfLines;
@@ -162,24 +163,26 @@ void SimpleIni::readFileName(std::string fileName)
                         // the rest of the line is a comment
                         break;
                     }
-                    if (equalPosition == 0)
+                    if((trimmedLine[i] == '=') && (equalPosition == 0))
                     {
-                        if (!isspace(trimmedLine[i]))
+                        // white spaces are only removed from the key
+                        std::string keyString = "";
+                        nKeyQuotes = 0;
+                        for (p1 = 0; p1 < tmpString.size(); p1++)
                         {
-                            tmpString += trimmedLine[i];
-                        }
-                    }
-                    else
-                    {
-                        tmpString += trimmedLine[i];
-                    }
-                    if(trimmedLine[i] == '=')
-                    {
-                        if (equalPosition == 0)
-                        {
-                            equalPosition = tmpString.size() - 1;
+                            if (tmpString[p1] == '"')
+                            {
+                                nKeyQuotes++;
+                            }
+                            if ((nKeyQuotes % 2) || !isspace((unsigned char) tmpString[p1]))
+                            {
+                                keyString += tmpString[p1];
+                            }
                         }
+                        tmpString = keyString;
+                        equalPosition = tmpString.size();
                     }
+                    tmpString += trimmedLine[i];
                 }
             }
             if (nQuotes % 2)
-- 
2.43.0


From 33cc1d2528ed6316ba9249e7c46ab5728a91a17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 39/66] fix: material names with spaces or dots in
 configuration files

---
 src/fisx_simpleini.h   | 13 +++++++++++++
 src/fisx_xrfconfig.cpp | 29 ++++++++++-------------------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/fisx_simpleini.h b/src/fisx_simpleini.h
index f8ad2d3..9797636 100644
--- a/src/fisx_simpleini.h
+++ b/src/fisx_simpleini.h
@@ -150,6 +150,19 @@ private:
     std::map<std::string, std::string>  defaultContent;
 };
 
+// a string value is the whole item (it can contain spaces) without leading and trailing spaces
+template<>
+inline bool SimpleIni::stringConverter<std::string>(const std::string& str, std::string & result)
+{
+    std::string::size_type first = str.find_first_not_of(" \n\r\t");
+    if (first == std::string::npos)
+    {
+        return false;
+    }
+    result = str.substr(first, 1 + str.find_last_not_of(" \n\r\t") - first);
+    return true;
+}
+
 } // namespace fisx
 
 #endif // FISX_SIMPLE_INI_H
diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index f668232..71eac90 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -63,7 +63,7 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
     std::vector<int>::size_type iIntVector;
     std::map<std::string, std::string>::const_iterator c_it;
     std::vector<Material>::size_type iMaterial;
-    std::vector<std::string> splitString;
+    std::string name;
     Material material;
     Layer layer;
     TransmissionTable transmissionTable;
@@ -194,11 +194,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         {
             sectionContents.clear();
             sectionContents = iniFile.readSection(stringVector[iStringVector], true);
-            splitString.clear();
-            iniFile.parseStringAsMultipleValues(stringVector[iStringVector],
-                                            splitString,
-                                            std::string(),
-                                            '.');
+            // the name is whatever follows the parent (it can contain spaces or dots)
+            name = stringVector[iStringVector].substr(stringVector[iStringVector].find('.') + 1);
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
@@ -229,7 +226,7 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                     comment = c_it->second;
                 }
             }
-            material = Material(splitString[1], density, thickness, comment);
+            material = Material(name, density, thickness, comment);
             material.setComposition(compoundList, compoundFractions);
             this->materials.push_back(material);
         }
@@ -251,11 +248,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         {
             sectionContents.clear();
             sectionContents = iniFile.readSection(stringVector[iStringVector], true);
-            splitString.clear();
-            iniFile.parseStringAsMultipleValues(stringVector[iStringVector],
-                                            splitString,
-                                            std::string(),
-                                            '.');
+            // the name is whatever follows the parent (it can contain spaces or dots)
+            name = stringVector[iStringVector].substr(stringVector[iStringVector].find('.') + 1);
             useFlag = 0.0;
             comment = "";
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
@@ -285,7 +279,7 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             if (useFlag > 0.0)
             {
                 transmissionTable = TransmissionTable();
-                transmissionTable.setTransmissionTable(energyList, transmissionList, splitString[1], comment);
+                transmissionTable.setTransmissionTable(energyList, transmissionList, name, comment);
                 this->userBeamFilters.push_back(transmissionTable);
             }
         }
@@ -307,11 +301,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         {
             sectionContents.clear();
             sectionContents = iniFile.readSection(stringVector[iStringVector], true);
-            splitString.clear();
-            iniFile.parseStringAsMultipleValues(stringVector[iStringVector],
-                                            splitString,
-                                            std::string(),
-                                            '.');
+            // the name is whatever follows the parent (it can contain spaces or dots)
+            name = stringVector[iStringVector].substr(stringVector[iStringVector].find('.') + 1);
             useFlag = 0.0;
             comment = "";
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
@@ -341,7 +332,7 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             if (useFlag > 0.0)
             {
                 transmissionTable = TransmissionTable();
-                transmissionTable.setTransmissionTable(energyList, transmissionList, splitString[1], comment);
+                transmissionTable.setTransmissionTable(energyList, transmissionList, name, comment);
                 this->userAttenuators.push_back(transmissionTable);
             }
         }
-- 
2.43.0


From f2d4d452d0a8bdcf9f0260183f83de09f31b767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 40/66] fix: each material and table of a configuration file on
 its own

---
 src/fisx_xrfconfig.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 71eac90..905fe03 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -192,6 +192,12 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         // Materials found
         for (iStringVector = 0; iStringVector < stringVector.size(); iStringVector++)
         {
+            // nothing is taken from the previous material
+            comment = "";
+            density = 1.0;
+            thickness = 1.0;
+            compoundList.clear();
+            compoundFractions.clear();
             sectionContents.clear();
             sectionContents = iniFile.readSection(stringVector[iStringVector], true);
             // the name is whatever follows the parent (it can contain spaces or dots)
@@ -252,6 +258,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             name = stringVector[iStringVector].substr(stringVector[iStringVector].find('.') + 1);
             useFlag = 0.0;
             comment = "";
+            energyList.clear();
+            transmissionList.clear();
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
@@ -305,6 +313,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             name = stringVector[iStringVector].substr(stringVector[iStringVector].find('.') + 1);
             useFlag = 0.0;
             comment = "";
+            energyList.clear();
+            transmissionList.clear();
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
-- 
2.43.0


From f69fd08f183d92816690660ef0e86c00898253ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:07 +0000
Subject: [PATCH 41/66] fix: reject incomplete lines in configuration files

---
 src/fisx_xrfconfig.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 905fe03..2c89271 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -144,6 +144,13 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         std::fill(flagVector.begin(), flagVector.end(), 1);
     }
 
+    if ((mapDoubles["weight"].size() != mapDoubles["energy"].size()) || \
+        (intVector.size() != mapDoubles["energy"].size()) || \
+        (flagVector.size() != mapDoubles["energy"].size()))
+    {
+        throw std::invalid_argument("Number of excitation energies, weights and flags does not match");
+    }
+
     counter = 0;
     iIntVector = flagVector.size();
     while(iIntVector > 0)
@@ -371,6 +378,10 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             std::cout << "<" << c_it->first << ">" << std::endl;
             continue;
         }
+        if ((doubleVector[0] > 0.0) && (doubleVector.size() < 5))
+        {
+            throw std::invalid_argument("Incomplete line in attenuators section: " + c_it->first);
+        }
         if (doubleVector[0] > 0.0)
         {
             if (c_it->first.substr(0, c_it->first.size() - 1) == "BeamFilter")
@@ -477,6 +488,10 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                 std::cout << "<" << c_it->first << ">" << std::endl;
                 continue;
             }
+            if ((doubleVector[0] > 0.0) && (doubleVector.size() < 4))
+            {
+                throw std::invalid_argument("Incomplete line in multilayer section: " + c_it->first);
+            }
             if (doubleVector[0] > 0.0)
             {
                     //BeamFilter0 = 0, -, 0.0, 0.0, 1.0
-- 
2.43.0


From 9667be26b6f8761ad4ad99e5cf1b12560441e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 42/66] fix: reset the geometry when reading a configuration
 file

---
 src/fisx_xrfconfig.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 2c89271..cdb96f8 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -364,6 +364,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
     this->beamFilters.clear();
     this->attenuators.clear();
     this->sample.clear();
+    // same defaults as when nothing was read before
+    this->setGeometry(45.0, 45.0, 90.);
     this->detector = Detector();
     multilayerSample = false;
     for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
-- 
2.43.0


From f2db285d799fc817d2ca74dd7ca101a1215a0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 43/66] fix: detector made of materials of the configuration

---
 src/fisx_multilayer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 26364e8..212af49 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -84,6 +84,14 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
     // beam is ordered
     // maxEnergy = energies[energies.size() - 1];
 
+    // the detector can be made of materials only known by the configuration
+    if (detector.hasMaterialComposition() && (this->getMaterials().size() > 0))
+    {
+        Material detectorMaterial = detector.getMaterial();
+        detectorMaterial.setComposition(this->getLayerComposition(detector, elementsLibrary));
+        detector.setMaterial(detectorMaterial);
+    }
+
     // use a cache for the sample layers composition
     for (iLayer = 0; iLayer < sample.size(); iLayer++)
     {
-- 
2.43.0


From 72b7d6b43ebe03a21efb80996335356ede754702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:48 +0000
Subject: [PATCH 44/66] fix: reject mass attenuation files with rows shorter
 than the labels

---
 src/fisx_elements.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 80478c9..3368920 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -672,6 +672,13 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
     {
         labels = sf.getScanLabels(n);
         data = sf.getScanData(n);
+        for (j = 0; j < data.size(); j++)
+        {
+            if (data[j].size() != labels.size())
+            {
+                throw std::ios_base::failure("Number of values does not match number of labels in " + fileName);
+            }
+        }
         muEnergy.clear();
         muPhotoelectric.clear();
         muCoherent.clear();
-- 
2.43.0


From ff55507c883643f12c5c9dcdea6f86133eb24973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:03 +0000
Subject: [PATCH 45/66] fix: reject incomplete binding energy and cross section
 files

---
 src/fisx_epdl97.cpp | 61 +++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 397d2bf..42eb636 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -60,16 +60,11 @@ EPDL97::EPDL97(std::string directoryName)
 
 void EPDL97::setDataDirectory(std::string directoryName)
 {
-    this->bindingEnergy.clear();
-    this->muInputLabels.clear();
-    this->muInputValues.clear();
-    this->muLabelToIndex.clear();
-    this->muEnergy.clear();
-    this->initialized = false;
-    this->bindingEnergiesFile = "Unknown";
-    this->crossSectionsFile = "Unknown";
-    this->loadData(directoryName);
+    EPDL97 helper;
 
+    // the data already loaded are only replaced if everything can be read
+    helper.loadData(directoryName);
+    *this = helper;
 }
 void EPDL97::loadData(std::string directoryName)
 {
@@ -118,6 +113,7 @@ void EPDL97::loadBindingEnergies(std::string fileName)
     std::vector<std::string>::size_type nLabels, n;
 
     std::vector<std::vector<double> > tmpValues;
+    std::vector<std::map<std::string, double> > tmpBindingEnergy;
     std::vector<std::map<std::string, double> >::size_type i;
     std::string key;
     std::string msg;
@@ -134,18 +130,23 @@ void EPDL97::loadBindingEnergies(std::string fileName)
     tmpLabels = sf.getScanLabels(0);
     tmpValues = sf.getScanData(0);
     nLabels = tmpLabels.size();
-    if (tmpValues[0].size() != nLabels)
+    if (tmpValues.size() < 1)
     {
-        std::cout << fileName;
-        std::cout << " nLabels = " << nLabels;
-        std::cout << " nValues = " << tmpValues[0].size();
-        throw std::ios_base::failure("EPDL97: Number of values does not match number of labels");
+        throw std::ios_base::failure("EPDL97: No values in binding energies file " + fileName);
     }
 
-    this->bindingEnergy.resize(tmpValues.size());
+    tmpBindingEnergy = this->bindingEnergy;
+    tmpBindingEnergy.resize(tmpValues.size());
 
-    for (i = 0; i < this->bindingEnergy.size(); i++)
+    for (i = 0; i < tmpBindingEnergy.size(); i++)
     {
+        if (tmpValues[i].size() != nLabels)
+        {
+            std::cout << fileName;
+            std::cout << " nLabels = " << nLabels;
+            std::cout << " nValues = " << tmpValues[i].size();
+            throw std::ios_base::failure("EPDL97: Number of values does not match number of labels");
+        }
         for (n = 1; n < nLabels; n++)
         {
             if (tmpLabels[n].substr(0, 1) == "K")
@@ -174,9 +175,10 @@ void EPDL97::loadBindingEnergies(std::string fileName)
                     }
                 }
             }
-            this->bindingEnergy[i][key] = tmpValues[i][n];
+            tmpBindingEnergy[i][key] = tmpValues[i][n];
         }
     }
+    this->bindingEnergy = tmpBindingEnergy;
     this->bindingEnergiesFile = fileName;
     // TODO, for a complete initialization some attenuation coefficients dhould be there
     this->initialized = true;
@@ -283,10 +285,18 @@ void EPDL97::loadCrossSections(std::string fileName)
         }
         // read the data
         this->muInputValues[i] = sf.getScanData(i);
+        if (this->muInputValues[i].size() < 1)
+        {
+            throw std::ios_base::failure("EPDL97: Scan without data in cross sections file");
+        }
         this->muEnergy[i].resize(this->muInputValues[i].size());
         for (j = 0; j < this->muInputValues[i].size(); j++)
         {
             pVec = &(this->muInputValues[i][j]);
+            if (pVec->size() != nLabels)
+            {
+                throw std::ios_base::failure("EPDL97: Number of values does not match number of labels");
+            }
             this->muEnergy[i][j] = (*pVec)[this->muLabelToIndex["energy"]];
             // recalculate the photoelectric effect of the non considered shells
             (*pVec)[this->muLabelToIndex["photoelectric"]] = (*pVec)[this->muLabelToIndex["total"]]-\
@@ -340,6 +350,11 @@ void EPDL97::setBindingEnergies(const int & z, const std::map<std::string, doubl
         throw std::runtime_error("EPDL97 Atomic number should be positive");
     }
 
+    if (z > (int) this->bindingEnergy.size())
+    {
+        throw std::runtime_error("EPDL97 No binding energies for that atomic number");
+    }
+
     this->bindingEnergy[z - 1].clear();
     this->bindingEnergy[z - 1] = bindingEnergies;
 }
@@ -350,6 +365,10 @@ const std::map<std::string, double> & EPDL97::getBindingEnergies(const int & z)
     {
         throw std::runtime_error("EPDL97 Atomic number should be positive");
     }
+    if (this->bindingEnergy.size() < 1)
+    {
+        throw std::runtime_error("EPDL97 Binding energies not initialized");
+    }
     if (z >= (int) this->bindingEnergy.size())
     {
         // Repeat for the elements beyond the last one
@@ -374,7 +393,7 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
     std::map<std::string, double>::const_iterator cStrDoubleIt;
     const std::vector<std::vector<double> > *pVector;
 
-    if(!this->initialized)
+    if((!this->initialized) || (this->muEnergy.size() < 1))
     {
         throw std::runtime_error("EPDL97 Mass attenuation coefficients not initialized");
     }
@@ -392,6 +411,10 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
         zHelp = (int) (this->muEnergy.size() - 1);
     }
 
+    if (zHelp >= (int) this->bindingEnergy.size())
+    {
+        throw std::runtime_error("EPDL97 No binding energies for that atomic number");
+    }
 
     indices = this->getInterpolationIndices(this->muEnergy[zHelp], energy);
 
@@ -634,7 +657,7 @@ std::map< std::string, std::vector<double> > EPDL97::getMassAttenuationCoefficie
     std::vector<double>  tmpPhotoelectricVector;
     std::vector<double>  nonPhotoelectricVector;
 
-    if(!this->initialized)
+    if((!this->initialized) || (this->muEnergy.size() < 1))
     {
         throw std::runtime_error("EPDL97 Mass attenuation coefficients not initialized");
     }
-- 
2.43.0


From 1c730bd05d5d742c94ba6b6320af94f03c73ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:32 +0000
Subject: [PATCH 46/66] fix: C++ exceptions of layers and binding energies
 reach Python

---
 python/cython/EPDL97.pxd | 2 +-
 python/cython/Layer.pxd  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/cython/EPDL97.pxd b/python/cython/EPDL97.pxd
index ac0f035..dfe933a 100644
--- a/python/cython/EPDL97.pxd
+++ b/python/cython/EPDL97.pxd
@@ -38,7 +38,7 @@ cdef extern from "fisx_epdl97.h" namespace "fisx":
         EPDL97(std_string) except +
         void setDataDirectory(std_string) except +        
         void setBindingEnergies(int, std_map[std_string, double])  except +
-        std_map[std_string, double] & getBindingEnergies(int)
+        std_map[std_string, double] & getBindingEnergies(int) except +
                                                 
         std_map[std_string, std_vector[double]] getMassAttenuationCoefficients(int) except +
         std_map[std_string, double] getMassAttenuationCoefficients(int, double) except +
diff --git a/python/cython/Layer.pxd b/python/cython/Layer.pxd
index f40c34c..2a4cc94 100644
--- a/python/cython/Layer.pxd
+++ b/python/cython/Layer.pxd
@@ -39,12 +39,12 @@ from Material cimport *
 
 cdef extern from "fisx_layer.h" namespace "fisx":
     cdef cppclass Layer:
-        Layer(std_string, double, double, double)
+        Layer(std_string, double, double, double) except +
 
-        std_map[std_string, double] getComposition(Elements)
+        std_map[std_string, double] getComposition(Elements) except +
 
-        std_vector[double] getTransmission(std_vector[double], Elements, double)
+        std_vector[double] getTransmission(std_vector[double], Elements, double) except +
 
-        void setMaterial(Material)
+        void setMaterial(Material) except +
 
         std_vector[std_pair[std_string, double]] getPeakFamilies(double, Elements) except +
-- 
2.43.0


From 7038cca4eabdcd232ac0db73820de557db08d36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:41 +0000
Subject: [PATCH 47/66] fix: reject transmission tables with not a number
 energies

---
 src/fisx_transmissiontable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fisx_transmissiontable.cpp b/src/fisx_transmissiontable.cpp
index 7e876a6..f447900 100644
--- a/src/fisx_transmissiontable.cpp
+++ b/src/fisx_transmissiontable.cpp
@@ -71,7 +71,7 @@ void TransmissionTable::setTransmissionTable(const std::map<double, double> & ta
     max_energy = -1;
     for (c_it = table.begin(); c_it != table.end(); ++c_it)
     {
-        if (c_it->first < 0.0)
+        if (!(c_it->first >= 0.0))
         {
             msg = "TransmissionTable::setTransmissionTable. Invalid energy";
             throw std::invalid_argument(msg);
@@ -85,7 +85,7 @@ void TransmissionTable::setTransmissionTable(const std::map<double, double> & ta
         {
             max_energy = c_it->first;
         }
-        if (c_it->second < 0.0)
+        if (!(c_it->second >= 0.0))
         {
             msg = "TransmissionTable::setTransmissionTable. Invalid transmission";
             throw std::invalid_argument(msg);
@@ -148,7 +148,7 @@ void TransmissionTable::setTransmissionTable(const std::vector<double> & energy,
     max_energy = -1;
     for (i = 0; i < energy.size(); ++i)
     {
-        if (energy[i] < 0.0)
+        if (!(energy[i] >= 0.0))
         {
             msg = "TransmissionTable::setTransmissionTable. Negative energy";
             throw std::invalid_argument(msg);
@@ -162,7 +162,7 @@ void TransmissionTable::setTransmissionTable(const std::vector<double> & energy,
         {
             max_energy = energy[i];
         }
-        if (transmission[i] < 0.0)
+        if (!(transmission[i] >= 0.0))
         {
             msg = "TransmissionTable::setTransmissionTable. Negative transmission";
             throw std::invalid_argument(msg);
-- 
2.43.0


From 649859dd74e3a67c2c56a353f3608890cef4a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:06 +0000
Subject: [PATCH 48/66] fix: Auger and Coster-Kronig ratios of an element refer
 to its shells

---
 src/fisx_element.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index cc1ef77..85faf4a 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1112,15 +1112,13 @@ const std::map<std::string, double> & Element::getFluorescenceRatios(const std::
 
 const std::map<std::string, double> & Element::getAugerRatios(std::string subshell)
 {
-    Shell shell;
-    shell = this->getShell(subshell);
+    const Shell & shell = this->getShell(subshell);
     return shell.getAugerRatios();
 }
 
 const std::map<std::string, std::map<std::string, double> > & Element::getCosterKronigRatios(std::string subshell)
 {
-    Shell shell;
-    shell = this->getShell(subshell);
+    const Shell & shell = this->getShell(subshell);
     return shell.getCosterKronigRatios();
 }
 
-- 
2.43.0


From 17cd40a83b5afa5dc1f023fa0d0ddc7549d1a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:51 +0000
Subject: [PATCH 49/66] fix: reject families and layers not matching the
 elements

---
 src/fisx_multilayer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 212af49..04e0c5c 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -48,6 +48,15 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                                const double & secondaryCalculationLimit, \
                                                const Beam & overwritingBeam) const
 {
+    if (familyList.size() != elementList.size())
+    {
+        throw std::invalid_argument("As many line families as elements are needed");
+    }
+    if ((layerList.size() != elementList.size()) && (layerList.size() != 1))
+    {
+        throw std::invalid_argument("Either a single sample layer or as many sample layers as elements are needed");
+    }
+
     // get all the needed configuration
     std::vector<std::vector<double> >actualRays = overwritingBeam.getBeamAsDoubleVectors();
     if (actualRays[0].size() < 1)
-- 
2.43.0


From 4850921de8dc2749e5284242b966c71dca1f9430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 50/66] fix: accept text in all the methods of Elements

---
 python/cython/PyElements.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index 548974e..39fef4b 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -141,7 +141,7 @@ cdef class PyElements:
     def getColumn(self, element):
         return self.thisptr.getColumn(toBytes(element))
 
-    def getRow(self, std_string element):
+    def getRow(self, element):
         return self.thisptr.getRow(toBytes(element))
 
     def getMaterialNames(self):
@@ -191,13 +191,13 @@ cdef class PyElements:
             return toString(self.thisptr.getShellNonradiativeTransitionsFile(toBytes(mainShellName)))
 
     def setMassAttenuationCoefficients(self,
-                                       std_string element,
+                                       element,
                                        std_vector[double] energies,
                                        std_vector[double] photo,
                                        std_vector[double] coherent,
                                        std_vector[double] compton,
                                        std_vector[double] pair):
-        self.thisptr.setMassAttenuationCoefficients(element,
+        self.thisptr.setMassAttenuationCoefficients(toBytes(element),
                                                     energies,
                                                     photo,
                                                     coherent,
@@ -250,7 +250,7 @@ cdef class PyElements:
         calculated values via log-log interpolation in the internal table.
         """
         if hasattr(name, "keys"):
-            return self._getMaterialMassAttenuationCoefficients(toBytes(name), energy)
+            return self._getMaterialMassAttenuationCoefficients(toBytesKeys(name), energy)
         elif energy is None:
             return self._getElementDefaultMassAttenuationCoefficients(toBytes(name))
         elif hasattr(energy, "__len__"):
@@ -290,9 +290,9 @@ cdef class PyElements:
         """
 
         if hasattr(energy, "__len__"):
-            return self._getMassAttenuationCoefficients(elementDict, energy)
+            return toStringKeys(self._getMassAttenuationCoefficients(elementDict, energy))
         else:
-            return self._getMassAttenuationCoefficients(elementDict, [energy])
+            return toStringKeys(self._getMassAttenuationCoefficients(elementDict, [energy]))
 
     def _getMassAttenuationCoefficients(self, std_map[std_string, double] elementDict,
                                               std_vector[double] energy):
-- 
2.43.0


From 790a3711fae99d2bcf76c34a0970c4501ed3f725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 51/66] fix: text names and keys in Element, Shell and EPDL97

---
 python/cython/PyEPDL97.pyx  |  5 +++-
 python/cython/PyElement.pyx | 60 ++++++++++++++++++++++++-------------
 python/cython/PyShell.pyx   | 14 ++++-----
 3 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/python/cython/PyEPDL97.pyx b/python/cython/PyEPDL97.pyx
index 3ef487b..3d50ecf 100644
--- a/python/cython/PyEPDL97.pyx
+++ b/python/cython/PyEPDL97.pyx
@@ -50,7 +50,10 @@ cdef class PyEPDL97:
     def setDataDirectory(self, name):
         self.thisptr.setDataDirectory(toBytes(name))
 
-    def setBindingEnergies(self, int z, std_map[std_string, double] energies):
+    def setBindingEnergies(self, int z, energies):
+        self._setBindingEnergies(z, toBytesKeys(energies))
+
+    def _setBindingEnergies(self, int z, std_map[std_string, double] energies):
         self.thisptr.setBindingEnergies(z, energies)
 
     def getBindingEnergies(self, int z):
diff --git a/python/cython/PyElement.pyx b/python/cython/PyElement.pyx
index 5328eb9..f7f2fc4 100644
--- a/python/cython/PyElement.pyx
+++ b/python/cython/PyElement.pyx
@@ -51,11 +51,14 @@ cdef class PyElement:
     def getAtomicNumber(self):
         return self.thisptr.getAtomicNumber()
 
-    def setBindingEnergies(self, std_map[std_string, double] energies):
+    def setBindingEnergies(self, energies):
+        self._setBindingEnergies(toBytesKeys(energies))
+
+    def _setBindingEnergies(self, std_map[std_string, double] energies):
         self.thisptr.setBindingEnergies(energies)
 
     def getBindingEnergies(self):
-        return self.thisptr.getBindingEnergies()
+        return toStringKeys(self.thisptr.getBindingEnergies())
     
     def setMassAttenuationCoefficients(self,
                                        std_vector[double] energies,
@@ -70,10 +73,10 @@ cdef class PyElement:
                                                     pair)
     
     def _getDefaultMassAttenuationCoefficients(self):
-        return self.thisptr.getMassAttenuationCoefficients()
+        return toStringKeys(self.thisptr.getMassAttenuationCoefficients())
 
     def _getSingleMassAttenuationCoefficients(self, double energy):
-        return self.thisptr.getMassAttenuationCoefficients(energy)
+        return toStringKeys(self.thisptr.getMassAttenuationCoefficients(energy))
 
     def getMassAttenuationCoefficients(self, energy=None):
         if energy is None:
@@ -84,35 +87,52 @@ cdef class PyElement:
             return self._getMultipleMassAttenuationCoefficients([energy])
 
     def _getMultipleMassAttenuationCoefficients(self, std_vector[double] energy):
-        return self.thisptr.getMassAttenuationCoefficients(energy)
+        return toStringKeys(self.thisptr.getMassAttenuationCoefficients(energy))
                                        
-    def setRadiativeTransitions(self, shell,
-                                std_vector[std_string] labels,
-                                std_vector[double] values):
-        self.thisptr.setRadiativeTransitions(toBytes(shell), labels, values)
+    def setRadiativeTransitions(self, shell, labels, values):
+        self._setRadiativeTransitions(toBytes(shell),
+                                      [toBytes(x) for x in labels],
+                                      values)
+
+    def _setRadiativeTransitions(self, std_string shell,
+                                 std_vector[std_string] labels,
+                                 std_vector[double] values):
+        self.thisptr.setRadiativeTransitions(shell, labels, values)
 
     def getRadiativeTransitions(self, shell):
-        return self.thisptr.getRadiativeTransitions(toBytes(shell))
+        return toStringKeys(self.thisptr.getRadiativeTransitions(toBytes(shell)))
+
+    def setNonradiativeTransitions(self, shell, labels, values):
+        self._setNonradiativeTransitions(toBytes(shell),
+                                         [toBytes(x) for x in labels],
+                                         values)
 
-    def setNonradiativeTransitions(self, shell,
-                                   std_vector[std_string] labels,
-                                   std_vector[double] values):
-        self.thisptr.setNonradiativeTransitions(toBytes(shell), labels, values)
+    def _setNonradiativeTransitions(self, std_string shell,
+                                    std_vector[std_string] labels,
+                                    std_vector[double] values):
+        self.thisptr.setNonradiativeTransitions(shell, labels, values)
 
     def getNonradiativeTransitions(self, shell):
-        return self.thisptr.getNonradiativeTransitions(toBytes(shell))
+        return toStringKeys(self.thisptr.getNonradiativeTransitions(toBytes(shell)))
 
-    def setShellConstants(self, shell,
-                          std_map[std_string, double] valuesDict):
-        self.thisptr.setShellConstants(toBytes(shell), valuesDict)
+    def setShellConstants(self, shell, valuesDict):
+        self._setShellConstants(toBytes(shell), toBytesKeys(valuesDict))
+
+    def _setShellConstants(self, std_string shell,
+                           std_map[std_string, double] valuesDict):
+        self.thisptr.setShellConstants(shell, valuesDict)
 
     def getShellConstants(self, shell):
-        return self.thisptr.getShellConstants(toBytes(shell))
+        return toStringKeys(self.thisptr.getShellConstants(toBytes(shell)))
 
     #def getXRayLines(self, std_string shell):
     #    return self.thisptr.getXRayLines(shell)
                           
-    def getXRayLinesFromVacancyDistribution(self,
+    def getXRayLinesFromVacancyDistribution(self, vacancyDict):
+        return toStringKeysAndValues(self._getXRayLinesFromVacancyDistribution(\
+                                toBytesKeys(vacancyDict)))
+
+    def _getXRayLinesFromVacancyDistribution(self,
                             std_map[std_string, double] vacancyDict):
         return self.thisptr.getXRayLinesFromVacancyDistribution(\
                                 vacancyDict)
diff --git a/python/cython/PyShell.pyx b/python/cython/PyShell.pyx
index b0eed12..b7c5f18 100644
--- a/python/cython/PyShell.pyx
+++ b/python/cython/PyShell.pyx
@@ -55,22 +55,22 @@ cdef class PyShell:
         self.thisptr.setNonradiativeTransitions(transitions, values)
 
     def getAugerRatios(self):
-        return self.thisptr.getAugerRatios()
+        return toStringKeys(self.thisptr.getAugerRatios())
 
     def getCosterKronigRatios(self):
-        return self.thisptr.getCosterKronigRatios()
+        return toStringKeys(self.thisptr.getCosterKronigRatios())
 
     def getFluorescenceRatios(self):
-        return self.thisptr.getFluorescenceRatios()
+        return toStringKeys(self.thisptr.getFluorescenceRatios())
 
     def getRadiativeTransitions(self):
-        return self.thisptr.getRadiativeTransitions()
+        return toStringKeys(self.thisptr.getRadiativeTransitions())
 
     def getNonradiativeTransitions(self):
-        return self.thisptr.getNonradiativeTransitions()
+        return toStringKeys(self.thisptr.getNonradiativeTransitions())
 
     def getDirectVacancyTransferRatios(self, subshell):
-        return self.thisptr.getDirectVacancyTransferRatios(toBytes(subshell))
+        return toStringKeys(self.thisptr.getDirectVacancyTransferRatios(toBytes(subshell)))
 
     def setShellConstants(self, shellConstants):
         if sys.version > "3.0":
@@ -78,4 +78,4 @@ cdef class PyShell:
         self.thisptr.setShellConstants(shellConstants)
 
     def getShellConstants(self):
-        return self.thisptr.getShellConstants()
+        return toStringKeys(self.thisptr.getShellConstants())
-- 
2.43.0


From 047f2858cce60e22c61ecfeec4f623a298a4a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 52/66] fix: one dictionary of excitation factors per energy

---
 python/cython/PyElements.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index 39fef4b..2c62de2 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -265,18 +265,20 @@ cdef class PyElements:
         Given energy(s) and (optional) weight(s), for the specfified element, this method returns
         the emitted X-ray already corrected for cascade and fluorescence yield.
         It is the equivalent of the excitation factor in D.K.G. de Boer's paper.
+        Given one energy, it gives back a dictionary. Given a list of energies, it
+        gives back a list with the dictionary of each energy.
         """
         if hasattr(energy, "__len__"):
             if weight is None:
                 weight = [1.0] * len(energy)
-            return self._getExcitationFactors(toBytes(name), energy, weight)[0]
+            return self._getExcitationFactors(toBytes(name), energy, weight)
         else:
             energy = [energy]
             if weight is None:
                 weight = [1.0]
             else:
                 weight = [weight]
-            return self._getExcitationFactors(toBytes(name), energy, weight)
+            return self._getExcitationFactors(toBytes(name), energy, weight)[0]
 
     def _getMaterialMassAttenuationCoefficients(self, elementDict, energy):
         """
-- 
2.43.0


From acc8640731c3386fc6a568f91753a159de7d959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 53/66] fix: weights of a beam given as an array

---
 python/cython/PyBeam.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/cython/PyBeam.pyx b/python/cython/PyBeam.pyx
index 98ed91c..509c704 100644
--- a/python/cython/PyBeam.pyx
+++ b/python/cython/PyBeam.pyx
@@ -54,7 +54,7 @@ cdef class PyBeam:
             energies = numpy.array([energies], dtype=numpy.float64)
         else:
             energies = numpy.asarray(energies, dtype=numpy.float64)
-        if weights:
+        if weights is not None:
             if not hasattr(weights, "__len__"):
                 weights = numpy.array([weights], numpy.float64)
             else:
-- 
2.43.0


From 1c82a2a42b9b5834bd6317174a9278587351f640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:21 +0000
Subject: [PATCH 54/66] fix: reject weights not matching the energies

---
 src/fisx_element.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 85faf4a..5359def 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1529,6 +1529,10 @@ std::vector<std::map<std::string, std::map<std::string, double> > >Element::getP
         result.clear();
         return result;
     }
+    if ((weights.size() > 1) && (weights.size() < energy.size()))
+    {
+        throw std::invalid_argument("Number of weights should match the number of energies");
+    }
     if (weights.size() == 1)
         weight = weights[0];
     else
-- 
2.43.0


From 986c0b189f0096534aaed04721f749930a746861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 55/66] fix: accept transmission tables as filters and
 attenuators

---
 python/cython/PyXRF.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index ba9c190..22590d6 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -129,7 +129,7 @@ cdef class PyXRF:
                 comment = item.getComment()
                 table = item.getTransmissionTable()
                 t = TransmissionTable()
-                t.setTransmissionTable(table, name, comment)
+                t.setTransmissionTable(table, toBytes(name), toBytes(comment))
                 container.push_back(t)
         else:
             for item in pyTransmissionTableList:
-- 
2.43.0


From 56250534ed733d039eef8d5040ed8d2a20889735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 56/66] fix: accept the configuration file name of XRF as text

---
 python/cython/PyXRF.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 22590d6..74410f0 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -42,7 +42,8 @@ from Beam cimport *
 cdef class PyXRF:
     cdef XRF *thisptr
 
-    def __cinit__(self, std_string configurationFile=""):
+    def __cinit__(self, configurationFile=""):
+        configurationFile = toBytes(configurationFile)
         if len(configurationFile):
             self.thisptr = new XRF(configurationFile)
         else:
-- 
2.43.0


From cccf42d456aef50e4d396248e313de5780f22ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:14 +0000
Subject: [PATCH 57/66] fix: single element and peak family in
 XRF.getFluorescence

---
 python/cython/PyXRF.pyx | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 74410f0..ab54594 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -401,10 +401,7 @@ cdef class PyXRF:
         cdef std_vector[int] dummyIntVec
         cdef std_vector[double] dummyDoubleVec
 
-        if hasattr(elementNames[0], "__len__"):
-            # we have received a list of elements
-            pass
-        else:
+        if isinstance(elementNames, (str, bytes)):
             # we have a single element, convert to list
             elementNames = [elementNames]
 
@@ -415,11 +412,8 @@ cdef class PyXRF:
             # we should have received an integer, convert to list
             sampleLayer = [sampleLayer]
 
-        if len(lineFamily) and hasattr(lineFamily, "__len__"):
-            # we have received a list of peak families
-            pass
-        else:
-            # we should have a peak family, convert to list
+        if isinstance(lineFamily, (str, bytes)):
+            # we have a single peak family, convert to list
             lineFamily = [lineFamily]
 
         # check the sizes match
-- 
2.43.0


From 788e7b866b33983dd590d5251594a30d8d328cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 58/66] fix: peak families of an array of elements

---
 python/cython/PyElements.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index 2c62de2..b54e4c2 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -315,7 +315,7 @@ cdef class PyElements:
         Given an energy and a reference to an elements library return dictionarys.
         The key is the peak family ("Si K", "Pb L1", ...) and the value the binding energy.
         """
-        if type(nameOrVector) in [type([]), type(())]:
+        if hasattr(nameOrVector, "__len__") and not isinstance(nameOrVector, (str, bytes)):
             if sys.version < "3.0":
                 return sorted(self._getPeakFamiliesFromVectorOfElements(nameOrVector, energy), key=itemgetter(1))
             else:
-- 
2.43.0


From 669493fd65a83d11b647d26e3e4581959fe1e501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 59/66] fix: reject None instead of an object

---
 python/cython/PyDetector.pyx |  6 ++---
 python/cython/PyElements.pyx |  2 +-
 python/cython/PyLayer.pyx    |  8 +++----
 python/cython/PyXRF.pyx      | 44 +++++++++++++++++++-----------------
 4 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/python/cython/PyDetector.pyx b/python/cython/PyDetector.pyx
index dd1ed0b..ad0bde4 100644
--- a/python/cython/PyDetector.pyx
+++ b/python/cython/PyDetector.pyx
@@ -47,7 +47,7 @@ cdef class PyDetector:
     def __dealloc__(self):
         del self.thisptr
 
-    def getTransmission(self, energies, PyElements elementsLib, double angle=90.):
+    def getTransmission(self, energies, PyElements elementsLib not None, double angle=90.):
         if not hasattr(energies, "__len__"):
             energies = numpy.array([energies], numpy.float64)
         return self.thisptr.getTransmission(energies, deref(elementsLib.thisptr), angle)
@@ -73,7 +73,7 @@ cdef class PyDetector:
     def setMaximumNumberOfEscapePeaks(self, int n):
         self.thisptr.setMaximumNumberOfEscapePeaks(n)
 
-    def getEscape(self, double energy, PyElements elementsLib, label="", int update=1):
+    def getEscape(self, double energy, PyElements elementsLib not None, label="", int update=1):
         label_ = toBytes(label)
         if sys.version < "3.0":
             if update:
@@ -104,7 +104,7 @@ cdef class PyDetector:
     def getDensity(self):
         return self.thisptr.getDensity()
 
-    def getComposition(self, PyElements elementsLib):
+    def getComposition(self, PyElements elementsLib not None):
         if sys.version < "3.0":
             return self.thisptr.getComposition(deref(elementsLib.thisptr))
         else:
diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index b54e4c2..78e0146 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -156,7 +156,7 @@ cdef class PyElements:
     def __dealloc__(self):
         del self.thisptr
 
-    def addMaterial(self, PyMaterial material, int errorOnReplace=1):
+    def addMaterial(self, PyMaterial material not None, int errorOnReplace=1):
         self.thisptr.addMaterial(deref(material.thisptr), errorOnReplace)
 
     def setShellConstantsFile(self, mainShellName, fileName):
diff --git a/python/cython/PyLayer.pyx b/python/cython/PyLayer.pyx
index 5459820..2589304 100644
--- a/python/cython/PyLayer.pyx
+++ b/python/cython/PyLayer.pyx
@@ -49,7 +49,7 @@ cdef class PyLayer:
     def __dealloc__(self):
         del self.thisptr
 
-    def getComposition(self, PyElements elementsLib):
+    def getComposition(self, PyElements elementsLib not None):
         """
         getComposition(elementsLib)
 
@@ -58,7 +58,7 @@ cdef class PyLayer:
         """
         return toStringKeys(self.thisptr.getComposition(deref(elementsLib.thisptr)))
 
-    def getTransmission(self, energies, PyElements elementsLib, double angle=90.):
+    def getTransmission(self, energies, PyElements elementsLib not None, double angle=90.):
         """
         getTransmission(energies, ElementsLibraryInstance, angle=90.)
 
@@ -69,7 +69,7 @@ cdef class PyLayer:
             energies = numpy.array([energies], numpy.float64)
         return self.thisptr.getTransmission(energies, deref(elementsLib.thisptr), angle)
 
-    def setMaterial(self, PyMaterial material):
+    def setMaterial(self, PyMaterial material not None):
         """
         setMaterial(MaterialInstance)
 
@@ -77,7 +77,7 @@ cdef class PyLayer:
         """
         self.thisptr.setMaterial(deref(material.thisptr))
 
-    def getPeakFamilies(self, double energy, PyElements elementsLib):
+    def getPeakFamilies(self, double energy, PyElements elementsLib not None):
         """
         getPeakFamilies(energy, ElementsLibraryInstance)
 
diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index ab54594..5290f93 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -199,7 +199,9 @@ cdef class PyXRF:
                     container.push_back(Layer(toBytes(name), density, thickness, 1.0))
         return self.thisptr.setAttenuators(container)
 
-    cdef void _addLayerToLayerVector(self, PyLayer layer, std_vector[Layer]& container):
+    cdef void _addLayerToLayerVector(self, PyLayer layer, std_vector[Layer]& container) except *:
+        if layer is None:
+            raise TypeError("A layer is needed, None received")
         container.push_back(deref(layer.thisptr))
 
     def setUserAttenuators(self, pyTransmissionTableList):
@@ -212,7 +214,7 @@ cdef class PyXRF:
         """
         self._fillTransmissionTable(pyTransmissionTableList, "attenuator")
 
-    def setDetector(self, PyDetector detector):
+    def setDetector(self, PyDetector detector not None):
         self.thisptr.setDetector(deref(detector.thisptr))
 
     def setGeometry(self, double alphaIn, double alphaOut, double scatteringAngle = -90.0):
@@ -221,12 +223,12 @@ cdef class PyXRF:
         else:
             self.thisptr.setGeometry(alphaIn, alphaOut, scatteringAngle)
 
-    def getLayerComposition(self, PyLayer layerInstance, PyElements elementsLibrary):
+    def getLayerComposition(self, PyLayer layerInstance not None, PyElements elementsLibrary not None):
         return toStringKeys(self.thisptr.getLayerComposition(deref(layerInstance.thisptr),
                                                 deref(elementsLibrary.thisptr)))
 
-    def getLayerMassAttenuationCoefficients(self, PyLayer layerInstance, energies, \
-                                            PyElements elementsLibrary):
+    def getLayerMassAttenuationCoefficients(self, PyLayer layerInstance not None, energies, \
+                                            PyElements elementsLibrary not None):
         if not hasattr(energies, "__len__"):
             return toStringKeys(self._getLayerMassAttenuationCoefficientsSingle( \
                                     layerInstance, \
@@ -237,9 +239,9 @@ cdef class PyXRF:
                                     energies,
                                     elementsLibrary))
 
-    def _getLayerMassAttenuationCoefficientsSingle(self, PyLayer layerInstance, \
+    def _getLayerMassAttenuationCoefficientsSingle(self, PyLayer layerInstance not None, \
                                             double energy, \
-                                            PyElements elementsLibrary):
+                                            PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerMassAttenuationCoefficients( \
@@ -247,9 +249,9 @@ cdef class PyXRF:
                                     energy, deref(elementsLibrary.thisptr), \
                                     composition)
 
-    def _getLayerMassAttenuationCoefficientsMultiple(self, PyLayer layerInstance, \
+    def _getLayerMassAttenuationCoefficientsMultiple(self, PyLayer layerInstance not None, \
                                             std_vector[double] energies, \
-                                            PyElements elementsLibrary):
+                                            PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerMassAttenuationCoefficients( \
@@ -257,8 +259,8 @@ cdef class PyXRF:
                                     energies, deref(elementsLibrary.thisptr), \
                                     composition)
 
-    def getLayerTransmission(self, PyLayer layerInstance, energies, \
-                             PyElements elementsLibrary, angle=90.):
+    def getLayerTransmission(self, PyLayer layerInstance not None, energies, \
+                             PyElements elementsLibrary not None, angle=90.):
         if not hasattr(energies, "__len__"):
             return self._getLayerTransmissionSingle( \
                                     layerInstance, \
@@ -272,8 +274,8 @@ cdef class PyXRF:
                                     elementsLibrary, \
                                     angle)
 
-    def _getLayerTransmissionSingle(self, PyLayer layerInstance, double energy, \
-                             PyElements elementsLibrary, double angle):
+    def _getLayerTransmissionSingle(self, PyLayer layerInstance not None, double energy, \
+                             PyElements elementsLibrary not None, double angle):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerTransmission( \
@@ -283,9 +285,9 @@ cdef class PyXRF:
                                     angle, \
                                     composition)
 
-    def _getLayerTransmissionMultiple(self, PyLayer layerInstance, \
+    def _getLayerTransmissionMultiple(self, PyLayer layerInstance not None, \
                              std_vector[double] energies, \
-                             PyElements elementsLibrary, double angle):
+                             PyElements elementsLibrary not None, double angle):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerTransmission( \
@@ -295,8 +297,8 @@ cdef class PyXRF:
                                     angle, \
                                     composition)
 
-    def getLayerPeakFamilies(self, PyLayer layerInstance, double energy, \
-                             PyElements elementsLibrary):
+    def getLayerPeakFamilies(self, PyLayer layerInstance not None, double energy, \
+                             PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
         return toStringKeys(self.thisptr.getLayerPeakFamilies( \
@@ -304,9 +306,9 @@ cdef class PyXRF:
                                     energy, deref(elementsLibrary.thisptr), \
                                     composition))
 
-    def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary, \
+    def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary not None, \
                             int secondary = 0, int useGeometricEfficiency = 1, int useMassFractions = 0, \
-                            double secondaryCalculationLimit = 0.0, PyBeam overwritingBeam=PyBeam()):
+                            double secondaryCalculationLimit = 0.0, PyBeam overwritingBeam not None=PyBeam()):
         """
         Input
         elementFamilyLayer - Vector of strings. Each string represents the information we are interested on.
@@ -353,11 +355,11 @@ cdef class PyXRF:
                             secondary, useGeometricEfficiency, \
                             useMassFractions, secondaryCalculationLimit, deref(overwritingBeam.thisptr))
 
-    def getFluorescence(self, elementNames, PyElements elementsLibrary, \
+    def getFluorescence(self, elementNames, PyElements elementsLibrary not None, \
                             sampleLayer = 0, lineFamily="K", int secondary = 0, \
                             int useGeometricEfficiency = 1, int useMassFractions = 0, \
                             double secondaryCalculationLimit = 0.0,
-                            PyBeam overwritingBeam=PyBeam()):
+                            PyBeam overwritingBeam not None=PyBeam()):
 
         """
         Input
-- 
2.43.0


From 4fbdbf8cd66961153bf18e9817737e6c6eb0e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:37 +0000
Subject: [PATCH 60/66] fix: failed initializeAsPyMca leaves a usable library

---
 python/cython/PyElements.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index 78e0146..80c1356 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -76,6 +76,7 @@ cdef class PyElements:
         """
         Configure the instance to use the same set of data as PyMca.
         """
+        cdef Elements *instance
         import os
         try:
             from PyMca5 import getDataFile
@@ -87,8 +88,10 @@ cdef class PyElements:
         directoryName = DataDir.FISX_DATA_DIR
         bindingEnergies = getDataFile("BindingEnergies.dat")
         xcomFile = getDataFile("XCOM_CrossSections.dat")
+        # the current library is kept if the new one cannot be instantiated
+        instance = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
         del self.thisptr
-        self.thisptr = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
+        self.thisptr = instance
         for shell in ["K", "L", "M"]:
             shellConstantsFile = getDataFile(shell+"ShellConstants.dat")
             self.thisptr.setShellConstantsFile(toBytes(shell),
@@ -101,6 +104,7 @@ cdef class PyElements:
         """
         Configure the instance to use the same set of data as PyMca.
         """
+        cdef Elements *instance
         import os
         try:
             from fisx import DataDir
@@ -113,8 +117,10 @@ cdef class PyElements:
             dataDir = directoryName
         bindingEnergies = os.path.join(dataDir, "BindingEnergies.dat")
         xcomFile = os.path.join(dataDir, "XCOM_CrossSections.dat")
+        # the current library is kept if the new one cannot be instantiated
+        instance = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
         del self.thisptr
-        self.thisptr = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
+        self.thisptr = instance
         for shell in ["K", "L", "M"]:
             shellConstantsFile = os.path.join(dataDir, shell+"ShellConstants.dat")
             self.thisptr.setShellConstantsFile(toBytes(shell), toBytes(shellConstantsFile))
-- 
2.43.0


From 311c88bde9551f6db14fac2058e11124e166337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 61/66] fix: peak families of a layer through XRF

---
 python/cython/PyXRF.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 5290f93..29f071f 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -29,6 +29,7 @@
 #cimport numpy as np
 cimport cython
 
+from operator import itemgetter
 from cython.operator cimport dereference as deref
 from libcpp.string cimport string as std_string
 from libcpp.vector cimport vector as std_vector
@@ -301,10 +302,11 @@ cdef class PyXRF:
                              PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
-        return toStringKeys(self.thisptr.getLayerPeakFamilies( \
+        tmpResult = self.thisptr.getLayerPeakFamilies( \
                                     deref(layerInstance.thisptr), \
                                     energy, deref(elementsLibrary.thisptr), \
-                                    composition))
+                                    composition)
+        return [(toString(x[0]), x[1]) for x in sorted(tmpResult, key=itemgetter(1))]
 
     def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary not None, \
                             int secondary = 0, int useGeometricEfficiency = 1, int useMassFractions = 0, \
-- 
2.43.0


From e8fabf45c408ad3cc5c863b45634e8b3353203fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 62/66] fix: text keys in the Coster-Kronig ratios of Shell

---
 python/cython/PyShell.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/cython/PyShell.pyx b/python/cython/PyShell.pyx
index b7c5f18..c9fbb77 100644
--- a/python/cython/PyShell.pyx
+++ b/python/cython/PyShell.pyx
@@ -55,10 +55,10 @@ cdef class PyShell:
         self.thisptr.setNonradiativeTransitions(transitions, values)
 
     def getAugerRatios(self):
-        return toStringKeys(self.thisptr.getAugerRatios())
+        return toStringKeysAndValues(self.thisptr.getAugerRatios())
 
     def getCosterKronigRatios(self):
-        return toStringKeys(self.thisptr.getCosterKronigRatios())
+        return toStringKeysAndValues(self.thisptr.getCosterKronigRatios())
 
     def getFluorescenceRatios(self):
         return toStringKeys(self.thisptr.getFluorescenceRatios())
@@ -70,7 +70,7 @@ cdef class PyShell:
         return toStringKeys(self.thisptr.getNonradiativeTransitions())
 
     def getDirectVacancyTransferRatios(self, subshell):
-        return toStringKeys(self.thisptr.getDirectVacancyTransferRatios(toBytes(subshell)))
+        return toStringKeysAndValues(self.thisptr.getDirectVacancyTransferRatios(toBytes(subshell)))
 
     def setShellConstants(self, shellConstants):
         if sys.version > "3.0":
-- 
2.43.0


From 39b7d9a121db593f2f7fa07ce642921bb61d8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:11 +0000
Subject: [PATCH 63/66] fix: elements with undefined shells between defined
 ones

---
 src/fisx_element.cpp | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 5359def..78f5a73 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1156,8 +1156,8 @@ std::map<std::string, double> Element::getEmittedXRayLines(const double & energy
         shell_it = this->shellInstance.find(keys[i]);
         if(shell_it == this->shellInstance.end())
         {
-            // shell is not defined, we are done
-            return result;
+            // shell is not defined
+            continue;
         }
 
         c_it = this->bindingEnergy.find(keys[i]);
@@ -1276,8 +1276,13 @@ Element::getCascadeModifiedVacancyDistribution(const std::map<std::string, doubl
     std::map<std::string, double>::const_iterator bind_it;
 
     // get a complete initial distribution of vacancies
-    for (i = 0; i < this->shellInstance.size(); i++)
+    for (i = 0; i < 9; i++)
     {
+        if (this->shellInstance.find(keys[i]) == this->shellInstance.end())
+        {
+            // shell is not defined
+            continue;
+        }
         c_it = distribution.find(keys[i]);
         if (c_it != distribution.end())
         {
@@ -1291,15 +1296,23 @@ Element::getCascadeModifiedVacancyDistribution(const std::map<std::string, doubl
     }
 
     // update the distribution due to the cascade
-    for (i = 0; i < finalDistribution.size(); i++)
+    for (i = 0; i < 9; i++)
     {
+        shell_it = this->shellInstance.find(keys[i]);
+        if (shell_it == this->shellInstance.end())
+        {
+            continue;
+        }
         if(finalDistribution[keys[i]] > 0.0)
         {
             // we have initial vacancies in shell i
             // propagate to all the higher shells j
-            shell_it = this->shellInstance.find(keys[i]);
-            for (j = i + 1; j < finalDistribution.size(); j++)
+            for (j = i + 1; j < 9; j++)
             {
+                if (this->shellInstance.find(keys[j]) == this->shellInstance.end())
+                {
+                    continue;
+                }
                 rate = 0.0;
                 transferRatios.clear();
                 transferRatios = shell_it->second.getDirectVacancyTransferRatios(keys[j]);
@@ -1378,8 +1391,13 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
     else
     {
         // get a complete initial distribution of vacancies
-        for (i = 0; i < this->shellInstance.size(); i++)
+        for (i = 0; i < 9; i++)
         {
+            if (this->shellInstance.find(keys[i]) == this->shellInstance.end())
+            {
+                // shell is not defined
+                continue;
+            }
             c_it = distribution.find(keys[i]);
             if (c_it != distribution.end())
             {
@@ -1396,10 +1414,14 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
     // we have the final vacancy distribution accounting for cascade
     // we just have to generate the dictionary of rates and energies
     // for each transition
-    for (i = 0; i < finalDistribution.size(); i++)
+    for (i = 0; i < 9; i++)
     {
         // get all the fluorescence transitions to that shell
         shell_it = this->shellInstance.find(keys[i]);
+        if (shell_it == this->shellInstance.end())
+        {
+            continue;
+        }
         fluorescenceRatios = shell_it->second.getFluorescenceRatios();
         for (c_it = fluorescenceRatios.begin(); c_it != fluorescenceRatios.end(); c_it++)
         {
-- 
2.43.0


From 81c5c1806b5f3ff561de21a4c1a868d0747a08d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:24 +0000
Subject: [PATCH 64/66] fix: inadmissible tables and constants leave the shell
 as it was

---
 src/fisx_shell.cpp | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index 22fd834..08efa88 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -145,6 +145,10 @@ void Shell::setNonradiativeTransitions(std::vector<std::string> labels, std::vec
 {
     std::vector<int>::size_type i;
 
+    if (labels.size() != values.size())
+    {
+        throw std::invalid_argument("Number of labels does not match number of values");
+    }
     if (this->nonradiativeTransitions.size() > 0)
     {
         // empty current list
@@ -182,22 +186,30 @@ void Shell::setNonradiativeTransitions(std::map<std::string, double> inputMap)
 
 void Shell::setNonradiativeTransitions(const char *c_strings[], const double *values, int nValues)
 {
+    std::vector<std::string> labels;
+    std::vector<double> vValues;
     int i;
+
+    labels.resize(nValues);
+    vValues.resize(nValues);
+
     for(i=0; i < nValues; i++)
     {
-        this->nonradiativeTransitions[this->toUpperCaseString(std::string(c_strings[i]))] = values[i];
+        labels[i] = std::string(c_strings[i]);
+        vValues[i] = values[i];
     }
-    this->_updateNonradiativeRatios();
+    this->setNonradiativeTransitions(labels, vValues);
 }
 
 void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector<double> values)
 {
     std::string tmpString;
     std::vector<int>::size_type i;
-    if (this->radiativeTransitions.size() > 0)
+    std::map<std::string, double> transitions;
+
+    if (labels.size() != values.size())
     {
-        // empty current list
-        this->radiativeTransitions.clear();
+        throw std::invalid_argument("Number of labels does not match number of values");
     }
     for (i = 0; i != labels.size(); i++)
     {
@@ -211,7 +223,8 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
         }
         if ((tmpString.size() == 5) && (tmpString != "TOTAL"))
         {
-            if (isdigit(tmpString.at(3)) && isdigit(tmpString.at(4)))
+            if (isdigit(tmpString.at(3)) && isdigit(tmpString.at(4)) && \
+                (tmpString.substr(0, this->name.size()) == this->name))
             {
                 // These are the following cases in PyMca:
                 // L1P23, L1O45
@@ -223,7 +236,7 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
                 // PyMca was deriving the energy skipping the last digit.
                 // std::cout << "setting key" << tmpString.substr(0, 4) << std::endl;
                 // Do not forget what was already given to that key (L1P10 and L1P11 follow L1P1)
-                this->radiativeTransitions[tmpString.substr(0, 4)] += values[i];
+                transitions[tmpString.substr(0, 4)] += values[i];
                 // other alternative would be to generate two keys with half
                 // the rate as being closer to the real stuff. Nevertheless,
                 // both transitions would most likely be mixed due to the
@@ -240,13 +253,13 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
         {
             if (tmpString.substr(0, this->name.size()) == this->name)
             {
-                this->radiativeTransitions[tmpString] += values[i];
+                transitions[tmpString] += values[i];
             }
             else
             {
                 if(tmpString == "TOTAL")
                 {
-                    this->radiativeTransitions[tmpString] = values[i];
+                    transitions[tmpString] = values[i];
                 }
                 else
                 {
@@ -256,6 +269,8 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
             }
         }
     }
+    // replace the current list
+    this->radiativeTransitions = transitions;
     this->_updateFluorescenceRatios();
 }
 
@@ -643,18 +658,19 @@ void Shell::setShellConstants(std::map<std::string, double> shellConstants)
     std::string msg;
     std::map<std::string, double>::const_iterator c_it;
 
+    // do not change anything if there is something wrong
     for (c_it = shellConstants.begin(); c_it != shellConstants.end(); ++c_it)
     {
-        if(this->shellConstants.find(c_it->first) != this->shellConstants.end())
-        {
-            this->shellConstants[c_it->first] = c_it->second;
-        }
-        else
+        if(this->shellConstants.find(c_it->first) == this->shellConstants.end())
         {
             msg = "Invalid constant " + c_it->first + " for " + this->name +" shell";
             throw std::invalid_argument(msg);
         }
     }
+    for (c_it = shellConstants.begin(); c_it != shellConstants.end(); ++c_it)
+    {
+        this->shellConstants[c_it->first] = c_it->second;
+    }
 }
 
 const std::map<std::string, double> & Shell::getShellConstants() const
-- 
2.43.0


From 1acfbe8d00090f7f7d31e17e988ce0c29ed57eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 65/66] fix: each peak family once for repeated elements

---
 src/fisx_elements.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 3368920..4ada7b7 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1811,6 +1811,11 @@ std::vector<std::pair<std::string, double> > Elements::getPeakFamilies( \
     result.clear();
     for (i = 0; i < elementList.size(); i++)
     {
+        if (std::find(elementList.begin(), elementList.begin() + i, elementList[i]) != elementList.begin() + i)
+        {
+            // that element was already considered
+            continue;
+        }
         shells = getElement(elementList[i]).getExcitedShells(energy);
         if (shells.size())
         {
-- 
2.43.0


From c4505a7eb6b188049dca03a9bfc598e8c189acda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:06 +0000
Subject: [PATCH 66/66] fix: leave the cascade cache of an element empty if it
 cannot be filled

---
 src/fisx_element.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 78f5a73..f7d0a26 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1661,7 +1661,9 @@ void Element::setCascadeCacheEnabled(const int & flag)
 void Element::fillCascadeCache()
 {
     std::map<std::string, Shell>::const_iterator shellIterator;
-    bool oldFlag;
+    std::map<std::string, std::map<std::string, std::map<std::string, double> > > tmpCache;
+
+    // the cache is left empty if the emission of any of the shells cannot be calculated
     this->cascadeCache.clear();
     // std::cout << "filling cache for element " << this->name << std::endl;
     for (shellIterator = shellInstance.begin(); shellIterator != shellInstance.end(); ++shellIterator)
@@ -1670,15 +1672,10 @@ void Element::fillCascadeCache()
         std::map<std::string, double> tmpDistribution;
         tmpDistribution.clear();
         tmpDistribution[subshell] = 1.0;
-        oldFlag = this->cascadeCacheEnabledFlag;
-        if (oldFlag)
-        {
-            // this is needed because otherways it uses the cache when filling the cache :-)
-            this->cascadeCacheEnabledFlag = false;
-        }
-        this->cascadeCache[subshell] = this->getXRayLinesFromVacancyDistribution(tmpDistribution, 1, 1);
-        this->cascadeCacheEnabledFlag = oldFlag;
+        // the cache is still empty and therefore it is not used when filling it
+        tmpCache[subshell] = this->getXRayLinesFromVacancyDistribution(tmpDistribution, 1, 1);
     }
+    this->cascadeCache.swap(tmpCache);
     //std::cout << "cache filled for element " << this->name << std::endl;
 }
 
-- 
2.43.0

