// Reference implementations of the few library functions behind std::list and std::map (the library is trusted; these have its
// documented effect: linking and unlinking of list nodes, in-order traversal and ordered insertion and removal of tree nodes; the
// tree is not rebalanced, which no caller can observe).  Natively the real library runs.
#ifndef VC_STL_H
#define VC_STL_H
#ifndef VC_NATIVE
struct VcListNode { VcListNode *next,*prev; };
struct VcTreeNode { int color; VcTreeNode *parent,*left,*right; };
extern "C" {
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_ (VcListNode *self,VcListNode *pos)
{ self->next = pos; self->prev = pos->prev; pos->prev->next = self; pos->prev = self; }
void _ZNSt8__detail15_List_node_base9_M_unhookEv (VcListNode *self)
{ self->prev->next = self->next; self->next->prev = self->prev; }
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_ (VcListNode *self,VcListNode *first,VcListNode *last)
{
  if( self == last ) return;
  last->prev->next = self; first->prev->next = last; self->prev->next = first;
  VcListNode *tmp = self->prev;
  self->prev = last->prev; last->prev = first->prev; first->prev = tmp;
}
// the header of a tree: parent is the root, left and right the first and last node; it is the only node whose color is 0 and that
// is the parent of its parent (or has none); all nodes made here are black (1)
VcTreeNode * _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base (VcTreeNode *x)
{
  if( x->right ) { x = x->right; while( x->left ) x = x->left; return x; }
  VcTreeNode *y = x->parent;
  while( x == y->right ) { x = y; y = y->parent; }
  return x->right != y ? y : x;
}
const VcTreeNode * _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base (const VcTreeNode *x)
{ return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(const_cast<VcTreeNode*>(x)); }
VcTreeNode * _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base (VcTreeNode *x)
{
  if( x->color == 0 && x->parent && x->parent->parent == x ) return x->right;      // from the end
  if( x->left ) { x = x->left; while( x->right ) x = x->right; return x; }
  VcTreeNode *y = x->parent;
  while( x == y->left ) { x = y; y = y->parent; }
  return y;
}
const VcTreeNode * _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base (const VcTreeNode *x)
{ return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(const_cast<VcTreeNode*>(x)); }
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ (bool left,VcTreeNode *x,VcTreeNode *p,VcTreeNode *header)
{
  x->parent = p; x->left = x->right = 0; x->color = 1;
  if( left )
  {
    p->left = x;                // (p may be the header: then this sets the first node)
    if( p == header ) { header->parent = x; header->right = x; }
    else if( p == header->left ) header->left = x;
  }
  else
  {
    p->right = x;
    if( p == header->right ) header->right = x;
  }
}
VcTreeNode * _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_ (VcTreeNode *z,VcTreeNode *header)
{
  VcTreeNode *prev = 0,*next = 0;
  if( header->left == z ) next = _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(z);
  if( header->right == z ) prev = z->left || z->parent != header ? _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(z) : header;
  VcTreeNode *y;                // takes the place of z
  if( !z->left ) y = z->right;
  else if( !z->right ) y = z->left;
  else
  {
    y = z->right; while( y->left ) y = y->left;
    if( y != z->right )
    {
      y->parent->left = y->right; if( y->right ) y->right->parent = y->parent;
      y->right = z->right; z->right->parent = y;
    }
    y->left = z->left; z->left->parent = y;
  }
  if( y ) y->parent = z->parent;
  if( header->parent == z ) header->parent = y;
  else if( z->parent->left == z ) z->parent->left = y;
  else z->parent->right = y;
  if( next ) header->left = next;
  if( prev ) header->right = prev;
  return z;
}
}
#endif
#endif
