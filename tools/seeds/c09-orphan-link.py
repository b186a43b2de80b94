PROPERTY = "C09"
NEEDS = "an agent whose parent was destroyed is connected to another one and that one is destroyed in turn, or its parent id is looked at in between"
BREAKS = "the children of a destroyed agent keep its id as their parent's id"
EDITS = [("src/agent.cc", """    child->parent_ = NULL;
    child->parent_id_ = -1;
""", """    child->parent_ = NULL;
""")]
DEMO = r"""
int main() {
  World w;
  Fac* p = new Fac(w.ctx);
  Fac* c = new Fac(w.ctx);
  c->Build(p);
  EXPECT(c->parent_id() == p->id());
  w.ctx->DelAgent(p);
  EXPECT(c->parent() == NULL);
  EXPECT(c->parent_id() == -1);
  return bad ? 1 : 0;
}
"""
