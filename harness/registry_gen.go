// Code generated by tools/gen_registry.py; committed.
package main

import (
	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

var reg_any = map[string]func(...any) aitch.Node{
	"css.AlignContent":               css.AlignContent,
	"css.AlignItems":                 css.AlignItems,
	"css.AlignSelf":                  css.AlignSelf,
	"css.Animation":                  css.Animation,
	"css.AnimationDelay":             css.AnimationDelay,
	"css.AnimationDirection":         css.AnimationDirection,
	"css.AnimationDuration":          css.AnimationDuration,
	"css.AnimationFillMode":          css.AnimationFillMode,
	"css.AnimationIterationCount":    css.AnimationIterationCount,
	"css.AnimationName":              css.AnimationName,
	"css.AnimationPlayState":         css.AnimationPlayState,
	"css.AnimationTimingFunction":    css.AnimationTimingFunction,
	"css.AspectRatio":                css.AspectRatio,
	"css.BackdropFilter":             css.BackdropFilter,
	"css.Background":                 css.Background,
	"css.BackgroundColor":            css.BackgroundColor,
	"css.BackgroundImage":            css.BackgroundImage,
	"css.BackgroundPosition":         css.BackgroundPosition,
	"css.BackgroundRepeat":           css.BackgroundRepeat,
	"css.BackgroundSize":             css.BackgroundSize,
	"css.Border":                     css.Border,
	"css.BorderBottom":               css.BorderBottom,
	"css.BorderCollapse":             css.BorderCollapse,
	"css.BorderColor":                css.BorderColor,
	"css.BorderLeft":                 css.BorderLeft,
	"css.BorderRadius":               css.BorderRadius,
	"css.BorderRight":                css.BorderRight,
	"css.BorderSpacing":              css.BorderSpacing,
	"css.BorderStyle":                css.BorderStyle,
	"css.BorderTop":                  css.BorderTop,
	"css.BorderWidth":                css.BorderWidth,
	"css.Bottom":                     css.Bottom,
	"css.BoxDecorationBreak":         css.BoxDecorationBreak,
	"css.BoxShadow":                  css.BoxShadow,
	"css.BoxSizing":                  css.BoxSizing,
	"css.CaretColor":                 css.CaretColor,
	"css.Clear":                      css.Clear,
	"css.Color":                      css.Color,
	"css.ColumnGap":                  css.ColumnGap,
	"css.Contain":                    css.Contain,
	"css.ContentVisibility":          css.ContentVisibility,
	"css.Cursor":                     css.Cursor,
	"css.Direction":                  css.Direction,
	"css.Display":                    css.Display,
	"css.EmptyCells":                 css.EmptyCells,
	"css.Filter":                     css.Filter,
	"css.Flex":                       css.Flex,
	"css.FlexBasis":                  css.FlexBasis,
	"css.FlexGrow":                   css.FlexGrow,
	"css.FlexShrink":                 css.FlexShrink,
	"css.Float":                      css.Float,
	"css.FontFamily":                 css.FontFamily,
	"css.FontSize":                   css.FontSize,
	"css.FontStretch":                css.FontStretch,
	"css.FontStyle":                  css.FontStyle,
	"css.FontVariant":                css.FontVariant,
	"css.FontWeight":                 css.FontWeight,
	"css.Gap":                        css.Gap,
	"css.GridArea":                   css.GridArea,
	"css.GridAutoFlow":               css.GridAutoFlow,
	"css.GridColumn":                 css.GridColumn,
	"css.GridRow":                    css.GridRow,
	"css.GridTemplateColumns":        css.GridTemplateColumns,
	"css.GridTemplateRows":           css.GridTemplateRows,
	"css.Height":                     css.Height,
	"css.Isolation":                  css.Isolation,
	"css.JustifyContent":             css.JustifyContent,
	"css.Left":                       css.Left,
	"css.LetterSpacing":              css.LetterSpacing,
	"css.LineHeight":                 css.LineHeight,
	"css.ListStyle":                  css.ListStyle,
	"css.ListStyleImage":             css.ListStyleImage,
	"css.ListStylePosition":          css.ListStylePosition,
	"css.ListStyleType":              css.ListStyleType,
	"css.Margin":                     css.Margin,
	"css.MarginBottom":               css.MarginBottom,
	"css.MarginLeft":                 css.MarginLeft,
	"css.MarginRight":                css.MarginRight,
	"css.MarginTop":                  css.MarginTop,
	"css.MaxHeight":                  css.MaxHeight,
	"css.MaxWidth":                   css.MaxWidth,
	"css.MinHeight":                  css.MinHeight,
	"css.MinWidth":                   css.MinWidth,
	"css.MixBlendMode":               css.MixBlendMode,
	"css.ObjectFit":                  css.ObjectFit,
	"css.ObjectPosition":             css.ObjectPosition,
	"css.Opacity":                    css.Opacity,
	"css.Overflow":                   css.Overflow,
	"css.OverflowX":                  css.OverflowX,
	"css.OverflowY":                  css.OverflowY,
	"css.Padding":                    css.Padding,
	"css.PaddingBottom":              css.PaddingBottom,
	"css.PaddingLeft":                css.PaddingLeft,
	"css.PaddingRight":               css.PaddingRight,
	"css.PaddingTop":                 css.PaddingTop,
	"css.PageBreakAfter":             css.PageBreakAfter,
	"css.PageBreakBefore":            css.PageBreakBefore,
	"css.PageBreakInside":            css.PageBreakInside,
	"css.PlaceContent":               css.PlaceContent,
	"css.PlaceItems":                 css.PlaceItems,
	"css.PlaceSelf":                  css.PlaceSelf,
	"css.PointerEvents":              css.PointerEvents,
	"css.Position":                   css.Position,
	"css.Resize":                     css.Resize,
	"css.Right":                      css.Right,
	"css.RowGap":                     css.RowGap,
	"css.ScrollBehavior":             css.ScrollBehavior,
	"css.ScrollMargin":               css.ScrollMargin,
	"css.ScrollPadding":              css.ScrollPadding,
	"css.ScrollSnapAlign":            css.ScrollSnapAlign,
	"css.ScrollSnapStop":             css.ScrollSnapStop,
	"css.ScrollSnapType":             css.ScrollSnapType,
	"css.Speak":                      css.Speak,
	"css.TabSize":                    css.TabSize,
	"css.TableLayout":                css.TableLayout,
	"css.TextAlign":                  css.TextAlign,
	"css.TextDecoration":             css.TextDecoration,
	"css.TextTransform":              css.TextTransform,
	"css.Top":                        css.Top,
	"css.TouchAction":                css.TouchAction,
	"css.Transform":                  css.Transform,
	"css.Transition":                 css.Transition,
	"css.TransitionDelay":            css.TransitionDelay,
	"css.TransitionDuration":         css.TransitionDuration,
	"css.TransitionProperty":         css.TransitionProperty,
	"css.TransitionTimingFunction":   css.TransitionTimingFunction,
	"css.UserSelect":                 css.UserSelect,
	"css.Visibility":                 css.Visibility,
	"css.WhiteSpace":                 css.WhiteSpace,
	"css.Width":                      css.Width,
	"css.WillChange":                 css.WillChange,
	"css.WordBreak":                  css.WordBreak,
	"css.ZIndex":                     css.ZIndex,
	"html.A":                         html.A,
	"html.Abbr":                      html.Abbr,
	"html.Accept":                    html.Accept,
	"html.AccessKey":                 html.AccessKey,
	"html.Action":                    html.Action,
	"html.Address":                   html.Address,
	"html.Alt":                       html.Alt,
	"html.Area":                      html.Area,
	"html.AriaAtomic":                html.AriaAtomic,
	"html.AriaBusy":                  html.AriaBusy,
	"html.AriaChecked":               html.AriaChecked,
	"html.AriaControls":              html.AriaControls,
	"html.AriaDescribedBy":           html.AriaDescribedBy,
	"html.AriaDisabled":              html.AriaDisabled,
	"html.AriaExpanded":              html.AriaExpanded,
	"html.AriaFlowTo":                html.AriaFlowTo,
	"html.AriaHidden":                html.AriaHidden,
	"html.AriaInvalid":               html.AriaInvalid,
	"html.AriaLabel":                 html.AriaLabel,
	"html.AriaLabelledBy":            html.AriaLabelledBy,
	"html.AriaLive":                  html.AriaLive,
	"html.AriaOwns":                  html.AriaOwns,
	"html.AriaPlaceholder":           html.AriaPlaceholder,
	"html.AriaPosInSet":              html.AriaPosInSet,
	"html.AriaPressed":               html.AriaPressed,
	"html.AriaReadonly":              html.AriaReadonly,
	"html.AriaRelevant":              html.AriaRelevant,
	"html.AriaRequired":              html.AriaRequired,
	"html.AriaSelected":              html.AriaSelected,
	"html.AriaSetSize":               html.AriaSetSize,
	"html.AriaValueMax":              html.AriaValueMax,
	"html.AriaValueMin":              html.AriaValueMin,
	"html.AriaValueNow":              html.AriaValueNow,
	"html.AriaValueText":             html.AriaValueText,
	"html.Article":                   html.Article,
	"html.As":                        html.As,
	"html.Aside":                     html.Aside,
	"html.Audio":                     html.Audio,
	"html.AutoCapitalize":            html.AutoCapitalize,
	"html.AutoComplete":              html.AutoComplete,
	"html.AutoCorrect":               html.AutoCorrect,
	"html.B":                         html.B,
	"html.Base":                      html.Base,
	"html.Bdi":                       html.Bdi,
	"html.Bdo":                       html.Bdo,
	"html.BlockQuote":                html.BlockQuote,
	"html.Body":                      html.Body,
	"html.Br":                        html.Br,
	"html.Button":                    html.Button,
	"html.Canvas":                    html.Canvas,
	"html.Caption":                   html.Caption,
	"html.Charset":                   html.Charset,
	"html.Cite":                      html.Cite,
	"html.CiteAttr":                  html.CiteAttr,
	"html.Class":                     html.Class,
	"html.Code":                      html.Code,
	"html.Col":                       html.Col,
	"html.ColGroup":                  html.ColGroup,
	"html.ColSpan":                   html.ColSpan,
	"html.Cols":                      html.Cols,
	"html.Comment":                   html.Comment,
	"html.Content":                   html.Content,
	"html.ContentEditable":           html.ContentEditable,
	"html.CrossOrigin":               html.CrossOrigin,
	"html.DataElement":               html.DataElement,
	"html.DataList":                  html.DataList,
	"html.DateTime":                  html.DateTime,
	"html.Dd":                        html.Dd,
	"html.Del":                       html.Del,
	"html.Details":                   html.Details,
	"html.Dfn":                       html.Dfn,
	"html.Dialog":                    html.Dialog,
	"html.Dir":                       html.Dir,
	"html.Div":                       html.Div,
	"html.Dl":                        html.Dl,
	"html.Download":                  html.Download,
	"html.Draggable":                 html.Draggable,
	"html.Dt":                        html.Dt,
	"html.Em":                        html.Em,
	"html.Embed":                     html.Embed,
	"html.EncType":                   html.EncType,
	"html.EnterKeyHint":              html.EnterKeyHint,
	"html.ExportParts":               html.ExportParts,
	"html.FieldSet":                  html.FieldSet,
	"html.FigCaption":                html.FigCaption,
	"html.Figure":                    html.Figure,
	"html.Footer":                    html.Footer,
	"html.For":                       html.For,
	"html.Form":                      html.Form,
	"html.FormAttr":                  html.FormAttr,
	"html.H1":                        html.H1,
	"html.H2":                        html.H2,
	"html.H3":                        html.H3,
	"html.H4":                        html.H4,
	"html.H5":                        html.H5,
	"html.H6":                        html.H6,
	"html.HGroup":                    html.HGroup,
	"html.Head":                      html.Head,
	"html.Header":                    html.Header,
	"html.Height":                    html.Height,
	"html.Hr":                        html.Hr,
	"html.Href":                      html.Href,
	"html.Html":                      html.Html,
	"html.I":                         html.I,
	"html.IFrame":                    html.IFrame,
	"html.Id":                        html.Id,
	"html.Img":                       html.Img,
	"html.Input":                     html.Input,
	"html.InputMode":                 html.InputMode,
	"html.Ins":                       html.Ins,
	"html.Integrity":                 html.Integrity,
	"html.Is":                        html.Is,
	"html.ItemId":                    html.ItemId,
	"html.ItemProp":                  html.ItemProp,
	"html.ItemRef":                   html.ItemRef,
	"html.ItemType":                  html.ItemType,
	"html.Kbd":                       html.Kbd,
	"html.Label":                     html.Label,
	"html.Lang":                      html.Lang,
	"html.Legend":                    html.Legend,
	"html.Li":                        html.Li,
	"html.Link":                      html.Link,
	"html.List":                      html.List,
	"html.Loading":                   html.Loading,
	"html.Main":                      html.Main,
	"html.Map":                       html.Map,
	"html.Mark":                      html.Mark,
	"html.Max":                       html.Max,
	"html.MaxLength":                 html.MaxLength,
	"html.Menu":                      html.Menu,
	"html.Meta":                      html.Meta,
	"html.Meter":                     html.Meter,
	"html.Method":                    html.Method,
	"html.Min":                       html.Min,
	"html.MinLength":                 html.MinLength,
	"html.Name":                      html.Name,
	"html.Nav":                       html.Nav,
	"html.NoScript":                  html.NoScript,
	"html.Nonce":                     html.Nonce,
	"html.Object":                    html.Object,
	"html.Ol":                        html.Ol,
	"html.OnAbort":                   html.OnAbort,
	"html.OnAnimationEnd":            html.OnAnimationEnd,
	"html.OnAnimationIteration":      html.OnAnimationIteration,
	"html.OnAnimationStart":          html.OnAnimationStart,
	"html.OnBeforeInput":             html.OnBeforeInput,
	"html.OnBeforeUnload":            html.OnBeforeUnload,
	"html.OnBlur":                    html.OnBlur,
	"html.OnCanPlay":                 html.OnCanPlay,
	"html.OnCanPlayThrough":          html.OnCanPlayThrough,
	"html.OnChange":                  html.OnChange,
	"html.OnClick":                   html.OnClick,
	"html.OnContextMenu":             html.OnContextMenu,
	"html.OnCopy":                    html.OnCopy,
	"html.OnCut":                     html.OnCut,
	"html.OnDblClick":                html.OnDblClick,
	"html.OnDrag":                    html.OnDrag,
	"html.OnDragEnd":                 html.OnDragEnd,
	"html.OnDragEnter":               html.OnDragEnter,
	"html.OnDragLeave":               html.OnDragLeave,
	"html.OnDragOver":                html.OnDragOver,
	"html.OnDragStart":               html.OnDragStart,
	"html.OnDrop":                    html.OnDrop,
	"html.OnDurationChange":          html.OnDurationChange,
	"html.OnEnded":                   html.OnEnded,
	"html.OnError":                   html.OnError,
	"html.OnFocus":                   html.OnFocus,
	"html.OnFormData":                html.OnFormData,
	"html.OnHashChange":              html.OnHashChange,
	"html.OnInput":                   html.OnInput,
	"html.OnInvalid":                 html.OnInvalid,
	"html.OnKeyDown":                 html.OnKeyDown,
	"html.OnKeyPress":                html.OnKeyPress,
	"html.OnKeyUp":                   html.OnKeyUp,
	"html.OnLoad":                    html.OnLoad,
	"html.OnLoadedData":              html.OnLoadedData,
	"html.OnLoadedMetadata":          html.OnLoadedMetadata,
	"html.OnMouseDown":               html.OnMouseDown,
	"html.OnMouseEnter":              html.OnMouseEnter,
	"html.OnMouseLeave":              html.OnMouseLeave,
	"html.OnMouseMove":               html.OnMouseMove,
	"html.OnMouseOut":                html.OnMouseOut,
	"html.OnMouseOver":               html.OnMouseOver,
	"html.OnMouseUp":                 html.OnMouseUp,
	"html.OnPageHide":                html.OnPageHide,
	"html.OnPageShow":                html.OnPageShow,
	"html.OnPaste":                   html.OnPaste,
	"html.OnPause":                   html.OnPause,
	"html.OnPlay":                    html.OnPlay,
	"html.OnPlaying":                 html.OnPlaying,
	"html.OnPointerCancel":           html.OnPointerCancel,
	"html.OnPointerDown":             html.OnPointerDown,
	"html.OnPointerEnter":            html.OnPointerEnter,
	"html.OnPointerLeave":            html.OnPointerLeave,
	"html.OnPointerMove":             html.OnPointerMove,
	"html.OnPointerOut":              html.OnPointerOut,
	"html.OnPointerOver":             html.OnPointerOver,
	"html.OnPointerUp":               html.OnPointerUp,
	"html.OnPopState":                html.OnPopState,
	"html.OnProgress":                html.OnProgress,
	"html.OnRateChange":              html.OnRateChange,
	"html.OnReset":                   html.OnReset,
	"html.OnResize":                  html.OnResize,
	"html.OnScroll":                  html.OnScroll,
	"html.OnSeeked":                  html.OnSeeked,
	"html.OnSeeking":                 html.OnSeeking,
	"html.OnSelect":                  html.OnSelect,
	"html.OnSlotChange":              html.OnSlotChange,
	"html.OnStalled":                 html.OnStalled,
	"html.OnSubmit":                  html.OnSubmit,
	"html.OnSuspend":                 html.OnSuspend,
	"html.OnTimeUpdate":              html.OnTimeUpdate,
	"html.OnToggle":                  html.OnToggle,
	"html.OnTouchCancel":             html.OnTouchCancel,
	"html.OnTouchEnd":                html.OnTouchEnd,
	"html.OnTouchMove":               html.OnTouchMove,
	"html.OnTouchStart":              html.OnTouchStart,
	"html.OnTransitionEnd":           html.OnTransitionEnd,
	"html.OnUnload":                  html.OnUnload,
	"html.OnVolumeChange":            html.OnVolumeChange,
	"html.OnWaiting":                 html.OnWaiting,
	"html.OptGroup":                  html.OptGroup,
	"html.Option":                    html.Option,
	"html.Output":                    html.Output,
	"html.P":                         html.P,
	"html.Para":                      html.Para,
	"html.Param":                     html.Param,
	"html.Part":                      html.Part,
	"html.Pattern":                   html.Pattern,
	"html.Picture":                   html.Picture,
	"html.Placeholder":               html.Placeholder,
	"html.PopOver":                   html.PopOver,
	"html.PopOverTarget":             html.PopOverTarget,
	"html.PopOverTargetAction":       html.PopOverTargetAction,
	"html.Poster":                    html.Poster,
	"html.Pre":                       html.Pre,
	"html.Preload":                   html.Preload,
	"html.Progress":                  html.Progress,
	"html.Q":                         html.Q,
	"html.ReferrerPolicy":            html.ReferrerPolicy,
	"html.Rel":                       html.Rel,
	"html.Role":                      html.Role,
	"html.RowSpan":                   html.RowSpan,
	"html.Rows":                      html.Rows,
	"html.Rp":                        html.Rp,
	"html.Rt":                        html.Rt,
	"html.Ruby":                      html.Ruby,
	"html.S":                         html.S,
	"html.Samp":                      html.Samp,
	"html.Script":                    html.Script,
	"html.Search":                    html.Search,
	"html.Section":                   html.Section,
	"html.Select":                    html.Select,
	"html.Slot":                      html.Slot,
	"html.SlotAttr":                  html.SlotAttr,
	"html.Small":                     html.Small,
	"html.Source":                    html.Source,
	"html.Span":                      html.Span,
	"html.Src":                       html.Src,
	"html.SrcSet":                    html.SrcSet,
	"html.Step":                      html.Step,
	"html.Strong":                    html.Strong,
	"html.Style":                     html.Style,
	"html.StyleElement":              html.StyleElement,
	"html.Sub":                       html.Sub,
	"html.Summary":                   html.Summary,
	"html.Sup":                       html.Sup,
	"html.TBody":                     html.TBody,
	"html.TFoot":                     html.TFoot,
	"html.THead":                     html.THead,
	"html.TabIndex":                  html.TabIndex,
	"html.Table":                     html.Table,
	"html.Target":                    html.Target,
	"html.Td":                        html.Td,
	"html.Template":                  html.Template,
	"html.Text":                      html.Text,
	"html.Textarea":                  html.Textarea,
	"html.Th":                        html.Th,
	"html.Time":                      html.Time,
	"html.Title":                     html.Title,
	"html.TitleElement":              html.TitleElement,
	"html.Tr":                        html.Tr,
	"html.Track":                     html.Track,
	"html.Type":                      html.Type,
	"html.U":                         html.U,
	"html.Ul":                        html.Ul,
	"html.Value":                     html.Value,
	"html.Var":                       html.Var,
	"html.Video":                     html.Video,
	"html.Wbr":                       html.Wbr,
	"html.Width":                     html.Width,
	"html.WritingSuggestions":        html.WritingSuggestions,
	"htmx.Boost":                     htmx.Boost,
	"htmx.Confirm":                   htmx.Confirm,
	"htmx.Delete":                    htmx.Delete,
	"htmx.Disable":                   htmx.Disable,
	"htmx.DisabledElt":               htmx.DisabledElt,
	"htmx.Disinherit":                htmx.Disinherit,
	"htmx.Encoding":                  htmx.Encoding,
	"htmx.Ext":                       htmx.Ext,
	"htmx.Get":                       htmx.Get,
	"htmx.Headers":                   htmx.Headers,
	"htmx.HistoryElt":                htmx.HistoryElt,
	"htmx.Include":                   htmx.Include,
	"htmx.Indicator":                 htmx.Indicator,
	"htmx.Inherit":                   htmx.Inherit,
	"htmx.OnAfterRequest":            htmx.OnAfterRequest,
	"htmx.OnAfterSwap":               htmx.OnAfterSwap,
	"htmx.OnBeforeRequest":           htmx.OnBeforeRequest,
	"htmx.OnBeforeSwap":              htmx.OnBeforeSwap,
	"htmx.OnResponseError":           htmx.OnResponseError,
	"htmx.OnSend":                    htmx.OnSend,
	"htmx.OnSendError":               htmx.OnSendError,
	"htmx.Params":                    htmx.Params,
	"htmx.Patch":                     htmx.Patch,
	"htmx.Post":                      htmx.Post,
	"htmx.Preserve":                  htmx.Preserve,
	"htmx.Prompt":                    htmx.Prompt,
	"htmx.PushURL":                   htmx.PushURL,
	"htmx.Put":                       htmx.Put,
	"htmx.ReplaceURL":                htmx.ReplaceURL,
	"htmx.Request":                   htmx.Request,
	"htmx.Select":                    htmx.Select,
	"htmx.Swap":                      htmx.Swap,
	"htmx.SwapOob":                   htmx.SwapOob,
	"htmx.Sync":                      htmx.Sync,
	"htmx.Target":                    htmx.Target,
	"htmx.Trigger":                   htmx.Trigger,
	"htmx.Validate":                  htmx.Validate,
	"htmx.Vals":                      htmx.Vals,
	"htmx.Vars":                      htmx.Vars,
	"svg.Accumulate":                 svg.Accumulate,
	"svg.Additive":                   svg.Additive,
	"svg.AlignmentBaseline":          svg.AlignmentBaseline,
	"svg.AltGlyph":                   svg.AltGlyph,
	"svg.Animate":                    svg.Animate,
	"svg.AnimateMotion":              svg.AnimateMotion,
	"svg.AnimateTransform":           svg.AnimateTransform,
	"svg.AttributeName":              svg.AttributeName,
	"svg.AttributeType":              svg.AttributeType,
	"svg.BaselineShift":              svg.BaselineShift,
	"svg.Begin":                      svg.Begin,
	"svg.By":                         svg.By,
	"svg.CalcMode":                   svg.CalcMode,
	"svg.Circle":                     svg.Circle,
	"svg.Class":                      svg.Class,
	"svg.Clip":                       svg.Clip,
	"svg.ClipPath":                   svg.ClipPath,
	"svg.ClipPathAttr":               svg.ClipPathAttr,
	"svg.ClipRule":                   svg.ClipRule,
	"svg.Color":                      svg.Color,
	"svg.ColorInterpolation":         svg.ColorInterpolation,
	"svg.ColorInterpolationFilters":  svg.ColorInterpolationFilters,
	"svg.ColorProfile":               svg.ColorProfile,
	"svg.ColorRendering":             svg.ColorRendering,
	"svg.Comment":                    svg.Comment,
	"svg.Cursor":                     svg.Cursor,
	"svg.Cx":                         svg.Cx,
	"svg.Cy":                         svg.Cy,
	"svg.D":                          svg.D,
	"svg.Defs":                       svg.Defs,
	"svg.Desc":                       svg.Desc,
	"svg.Direction":                  svg.Direction,
	"svg.Discard":                    svg.Discard,
	"svg.Display":                    svg.Display,
	"svg.DominantBaseline":           svg.DominantBaseline,
	"svg.Dur":                        svg.Dur,
	"svg.Dx":                         svg.Dx,
	"svg.Dy":                         svg.Dy,
	"svg.Ellipse":                    svg.Ellipse,
	"svg.EnableBackground":           svg.EnableBackground,
	"svg.End":                        svg.End,
	"svg.ExternalResourcesRequired":  svg.ExternalResourcesRequired,
	"svg.FeBlend":                    svg.FeBlend,
	"svg.FeColorMatrix":              svg.FeColorMatrix,
	"svg.FeComponentTransfer":        svg.FeComponentTransfer,
	"svg.FeComposite":                svg.FeComposite,
	"svg.FeConvolveMatrix":           svg.FeConvolveMatrix,
	"svg.FeDiffuseLighting":          svg.FeDiffuseLighting,
	"svg.FeDisplacementMap":          svg.FeDisplacementMap,
	"svg.FeDistantLight":             svg.FeDistantLight,
	"svg.FeDropShadow":               svg.FeDropShadow,
	"svg.FeFlood":                    svg.FeFlood,
	"svg.FeFuncA":                    svg.FeFuncA,
	"svg.FeFuncB":                    svg.FeFuncB,
	"svg.FeFuncG":                    svg.FeFuncG,
	"svg.FeFuncR":                    svg.FeFuncR,
	"svg.FeGaussianBlur":             svg.FeGaussianBlur,
	"svg.FeImage":                    svg.FeImage,
	"svg.FeMerge":                    svg.FeMerge,
	"svg.FeMergeNode":                svg.FeMergeNode,
	"svg.FeMorphology":               svg.FeMorphology,
	"svg.FeOffset":                   svg.FeOffset,
	"svg.FePointLight":               svg.FePointLight,
	"svg.FeSpecularLighting":         svg.FeSpecularLighting,
	"svg.FeSpotLight":                svg.FeSpotLight,
	"svg.FeTile":                     svg.FeTile,
	"svg.FeTurbulence":               svg.FeTurbulence,
	"svg.Fill":                       svg.Fill,
	"svg.FillOpacity":                svg.FillOpacity,
	"svg.FillRule":                   svg.FillRule,
	"svg.Filter":                     svg.Filter,
	"svg.FilterAttr":                 svg.FilterAttr,
	"svg.FilterUnits":                svg.FilterUnits,
	"svg.FloodColor":                 svg.FloodColor,
	"svg.FloodOpacity":               svg.FloodOpacity,
	"svg.FontFamily":                 svg.FontFamily,
	"svg.FontSize":                   svg.FontSize,
	"svg.FontSizeAdjust":             svg.FontSizeAdjust,
	"svg.FontStretch":                svg.FontStretch,
	"svg.FontStyle":                  svg.FontStyle,
	"svg.FontVariant":                svg.FontVariant,
	"svg.FontWeight":                 svg.FontWeight,
	"svg.ForeignObject":              svg.ForeignObject,
	"svg.From":                       svg.From,
	"svg.Fx":                         svg.Fx,
	"svg.Fy":                         svg.Fy,
	"svg.G":                          svg.G,
	"svg.Glyph":                      svg.Glyph,
	"svg.GlyphOrientationHorizontal": svg.GlyphOrientationHorizontal,
	"svg.GlyphOrientationVertical":   svg.GlyphOrientationVertical,
	"svg.GradientTransform":          svg.GradientTransform,
	"svg.GradientUnits":              svg.GradientUnits,
	"svg.Height":                     svg.Height,
	"svg.Href":                       svg.Href,
	"svg.Id":                         svg.Id,
	"svg.ImageRendering":             svg.ImageRendering,
	"svg.Kerning":                    svg.Kerning,
	"svg.KeyPoints":                  svg.KeyPoints,
	"svg.KeySplines":                 svg.KeySplines,
	"svg.KeyTimes":                   svg.KeyTimes,
	"svg.LengthAdjust":               svg.LengthAdjust,
	"svg.LetterSpacing":              svg.LetterSpacing,
	"svg.LightingColor":              svg.LightingColor,
	"svg.Line":                       svg.Line,
	"svg.LinearGradient":             svg.LinearGradient,
	"svg.Marker":                     svg.Marker,
	"svg.MarkerEnd":                  svg.MarkerEnd,
	"svg.MarkerHeight":               svg.MarkerHeight,
	"svg.MarkerMid":                  svg.MarkerMid,
	"svg.MarkerStart":                svg.MarkerStart,
	"svg.MarkerUnits":                svg.MarkerUnits,
	"svg.MarkerWidth":                svg.MarkerWidth,
	"svg.Mask":                       svg.Mask,
	"svg.MaskAttr":                   svg.MaskAttr,
	"svg.Metadata":                   svg.Metadata,
	"svg.Mpath":                      svg.Mpath,
	"svg.OnBlur":                     svg.OnBlur,
	"svg.OnClick":                    svg.OnClick,
	"svg.OnFocus":                    svg.OnFocus,
	"svg.OnLoad":                     svg.OnLoad,
	"svg.OnMouseDown":                svg.OnMouseDown,
	"svg.OnMouseMove":                svg.OnMouseMove,
	"svg.OnMouseOut":                 svg.OnMouseOut,
	"svg.OnMouseOver":                svg.OnMouseOver,
	"svg.OnMouseUp":                  svg.OnMouseUp,
	"svg.OnUnload":                   svg.OnUnload,
	"svg.Opacity":                    svg.Opacity,
	"svg.Orient":                     svg.Orient,
	"svg.Path":                       svg.Path,
	"svg.PathAttr":                   svg.PathAttr,
	"svg.PathLength":                 svg.PathLength,
	"svg.Pattern":                    svg.Pattern,
	"svg.PatternContentUnits":        svg.PatternContentUnits,
	"svg.PatternTransform":           svg.PatternTransform,
	"svg.PatternUnits":               svg.PatternUnits,
	"svg.PointerEvents":              svg.PointerEvents,
	"svg.Points":                     svg.Points,
	"svg.Polygon":                    svg.Polygon,
	"svg.Polyline":                   svg.Polyline,
	"svg.PreserveAspectRatio":        svg.PreserveAspectRatio,
	"svg.PrimitiveUnits":             svg.PrimitiveUnits,
	"svg.R":                          svg.R,
	"svg.RadialGradient":             svg.RadialGradient,
	"svg.Rect":                       svg.Rect,
	"svg.RefX":                       svg.RefX,
	"svg.RefY":                       svg.RefY,
	"svg.RepeatCount":                svg.RepeatCount,
	"svg.RepeatDur":                  svg.RepeatDur,
	"svg.RequiredExtensions":         svg.RequiredExtensions,
	"svg.RequiredFeatures":           svg.RequiredFeatures,
	"svg.Rotate":                     svg.Rotate,
	"svg.Rx":                         svg.Rx,
	"svg.Ry":                         svg.Ry,
	"svg.Script":                     svg.Script,
	"svg.Set":                        svg.Set,
	"svg.ShapeRendering":             svg.ShapeRendering,
	"svg.SolidColor":                 svg.SolidColor,
	"svg.SpreadMethod":               svg.SpreadMethod,
	"svg.Stop":                       svg.Stop,
	"svg.StopColor":                  svg.StopColor,
	"svg.StopOpacity":                svg.StopOpacity,
	"svg.Stroke":                     svg.Stroke,
	"svg.StrokeDashArray":            svg.StrokeDashArray,
	"svg.StrokeDashOffset":           svg.StrokeDashOffset,
	"svg.StrokeLineCap":              svg.StrokeLineCap,
	"svg.StrokeLineJoin":             svg.StrokeLineJoin,
	"svg.StrokeMiterLimit":           svg.StrokeMiterLimit,
	"svg.StrokeOpacity":              svg.StrokeOpacity,
	"svg.StrokeWidth":                svg.StrokeWidth,
	"svg.Style":                      svg.Style,
	"svg.StyleElement":               svg.StyleElement,
	"svg.Svg":                        svg.Svg,
	"svg.Switch":                     svg.Switch,
	"svg.Symbol":                     svg.Symbol,
	"svg.SystemLanguage":             svg.SystemLanguage,
	"svg.TRef":                       svg.TRef,
	"svg.TSpan":                      svg.TSpan,
	"svg.TabIndex":                   svg.TabIndex,
	"svg.Text":                       svg.Text,
	"svg.TextAnchor":                 svg.TextAnchor,
	"svg.TextDecoration":             svg.TextDecoration,
	"svg.TextElement":                svg.TextElement,
	"svg.TextLength":                 svg.TextLength,
	"svg.TextPath":                   svg.TextPath,
	"svg.TextRendering":              svg.TextRendering,
	"svg.Title":                      svg.Title,
	"svg.To":                         svg.To,
	"svg.Type":                       svg.Type,
	"svg.UnicodeBidi":                svg.UnicodeBidi,
	"svg.Use":                        svg.Use,
	"svg.Values":                     svg.Values,
	"svg.View":                       svg.View,
	"svg.Visibility":                 svg.Visibility,
	"svg.Width":                      svg.Width,
	"svg.WordSpacing":                svg.WordSpacing,
	"svg.WritingMode":                svg.WritingMode,
	"svg.X":                          svg.X,
	"svg.X1":                         svg.X1,
	"svg.X2":                         svg.X2,
	"svg.XlinkActuate":               svg.XlinkActuate,
	"svg.XlinkArcrole":               svg.XlinkArcrole,
	"svg.XlinkHref":                  svg.XlinkHref,
	"svg.XlinkRole":                  svg.XlinkRole,
	"svg.XlinkShow":                  svg.XlinkShow,
	"svg.XlinkTitle":                 svg.XlinkTitle,
	"svg.XmlBase":                    svg.XmlBase,
	"svg.XmlLang":                    svg.XmlLang,
	"svg.XmlSpace":                   svg.XmlSpace,
	"svg.Y":                          svg.Y,
	"svg.Y1":                         svg.Y1,
	"svg.Y2":                         svg.Y2,
}

var reg_none = map[string]func() aitch.Node{
	"html.AllowFullScreen": html.AllowFullScreen,
	"html.Async":           html.Async,
	"html.AutoFocus":       html.AutoFocus,
	"html.AutoPlay":        html.AutoPlay,
	"html.Checked":         html.Checked,
	"html.Controls":        html.Controls,
	"html.Default":         html.Default,
	"html.Defer":           html.Defer,
	"html.Disabled":        html.Disabled,
	"html.FormNoValidate":  html.FormNoValidate,
	"html.Hidden":          html.Hidden,
	"html.Inert":           html.Inert,
	"html.IsMap":           html.IsMap,
	"html.ItemScope":       html.ItemScope,
	"html.Loop":            html.Loop,
	"html.Multiple":        html.Multiple,
	"html.Muted":           html.Muted,
	"html.NoModule":        html.NoModule,
	"html.NoValidate":      html.NoValidate,
	"html.Open":            html.Open,
	"html.PlaysInline":     html.PlaysInline,
	"html.ReadOnly":        html.ReadOnly,
	"html.Required":        html.Required,
	"html.Reversed":        html.Reversed,
	"html.Selected":        html.Selected,
	"html.Spellcheck":      html.Spellcheck,
	"html.Translate":       html.Translate,
}

var reg_named = map[string]func(string, ...any) aitch.Node{
	"html.Aria": html.Aria,
	"html.Data": html.Data,
	"html.PI":   html.PI,
	"htmx.On":   htmx.On,
}

var reg_unit = map[string]func(...any) aitch.Value{
	"css.Ch":      css.Ch,
	"css.Cm":      css.Cm,
	"css.Em":      css.Em,
	"css.Ex":      css.Ex,
	"css.In":      css.In,
	"css.Mm":      css.Mm,
	"css.Pc":      css.Pc,
	"css.Percent": css.Percent,
	"css.Pt":      css.Pt,
	"css.Px":      css.Px,
	"css.Rem":     css.Rem,
	"css.VMax":    css.VMax,
	"css.VMin":    css.VMin,
	"css.Vh":      css.Vh,
	"css.Vw":      css.Vw,
}
