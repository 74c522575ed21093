// A tree as found in the classes of a generated parser
#ifndef GENNODE_H
#define GENNODE_H
#include <string>
#include <vector>
#include <utility>
struct gnode {
    std::string cls, text, wrong;                           // wrong: what's the matter with the object, if anything
    int kind = 0;                                           // 0 nothing, 1 terminal, 2 node, 3 list, 4 content of a list
    int at[6] = { -9, -9, -9, -9, -9, -9 };                 // Offset, line, column of the start and of the end
    std::vector<std::pair<std::string, gnode>> kids;
};
struct gresult { bool accepted = false, hasLook = false; int look[3] = { -1, -1, -1 }; gnode root; };
#endif
